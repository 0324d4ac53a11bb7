"""C29: drawings show exactly the graph or circuit."""
import matplotlib.pyplot as plt
import retworkx as rx
from hypothesis import strategies as st
from qtcodes import TopologicalCircuit, TopologicalRegister

from qv import lib
from qv.core import Part, require

ID = "C29"
RULE = (
    "graphs: decoder of 1-5 time steps and its syndrome graph, an error graph or a matched graph of generated hits, or a generated graph, drawn with "
    "generated options; nodes, labels, edges and weights are read back from the figure. circuits: a generated program on one or "
    "more qubits, whose drawing and text are compared with those of the circuit itself. Non-trivial = a graph with at least "
    "three edges; a program of at least three calls."
)
ASSUMPTIONS = ["retworkx's mpl_draw and matplotlib draw what they are given"]


@st.composite
def graph_cases(draw, tier):
    spec = draw(lib.decoder_specs(5, 25))
    T = draw(st.sampled_from([1, 1, 1, 2, 3, 5]))
    key = draw(st.sampled_from(lib.bases(spec)))
    big = T == 1 and draw(st.integers(0, 9)) == 0
    if big:  # many nodes
        spec = draw(st.sampled_from([{"code": "XXZZ", "d": [9, 9], "scalar": True}, {"code": "XZZX", "d": [7, 11], "scalar": False},
                                     {"code": "Repetition", "d": [51, 1], "scalar": True}]))
        key = draw(st.sampled_from(lib.bases(spec)))
    kind = "syndrome" if big else draw(st.sampled_from(["syndrome", "error", "error", "matched", "matched"]))
    hits = draw(lib.subsets(lib.hit_nodes(spec, T, key), 7)) if kind != "syndrome" else []
    own = None
    if not big and draw(st.integers(0, 2)) == 0:  # a graph put together by the user
        nodes = draw(lib.subsets(lib.hit_nodes(spec, T, key), 8))
        nodes += [n for n in ([-1, -0.5, -0.5], [-1, -1, -1], [-1, 0.5, 2.5]) if draw(st.booleans())]
        k = max(len(nodes) - 1, 0)
        gone = draw(st.lists(st.integers(0, k), max_size=3)) if draw(st.booleans()) else []
        own = [nodes, draw(st.lists(st.tuples(st.integers(0, k), st.integers(0, k), st.sampled_from([0, 0, 1, 3, -2, 0.5, -1.25, 12.0])).map(list), max_size=8)), gone]
        kind = "own"
    return {"own": own, "spec": spec, "T": T, "key": key, "kind": kind, "hits": hits, "p": draw(st.sampled_from([None, None, 0.05, 0.2])),
            "dpi": draw(st.sampled_from([None, None, 40])), "open": draw(st.booleans()), "earlier": None if big else draw(st.sampled_from([None, None, None, 0, 1])), "direct": draw(st.booleans()),
            "show": draw(st.sampled_from([None, True, False, False]))}


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-6 for x, y in zip(a, b))


def number(text):
    try:
        return float(text)
    except ValueError:
        return None


def contents(ax):
    """-> node positions, (position, text) pairs, segments; in as many dimensions as the axes have."""
    nodes, texts, segs = [], [], []
    flat = not hasattr(ax, "get_zlim")
    for c in ax.collections:
        if hasattr(c, "_offsets3d"):
            nodes += [tuple(map(float, p)) for p in zip(*c._offsets3d)]
        elif hasattr(c, "_segments3d"):
            segs += [[tuple(map(float, p)) for p in s] for s in c._segments3d]
        elif hasattr(c, "get_segments"):
            segs += [[tuple(map(float, p)) for p in s] for s in c.get_segments()]
        else:
            nodes += [tuple(map(float, p)) for p in c.get_offsets()]
    for t in ax.texts:
        p = t.get_position() if flat else t.get_position_3d()
        texts.append((tuple(map(float, p)), str(t.get_text())))
    for l in ax.lines:
        pts = list(zip(*l.get_data())) if flat else list(zip(*l.get_data_3d()))
        pts = [tuple(map(float, p)) for p in pts]
        if l.get_linestyle() in ("None", "", " "):
            nodes += pts
        else:
            segs.append(pts)
    for p in ax.patches:
        ends = getattr(p, "_posA_posB", None)
        if ends is not None:
            segs.append([tuple(map(float, e)) for e in ends])
    return nodes, texts, segs


def check_graph(case):
    spec, T, key, p = case["spec"], case["T"], case["key"], case["p"]
    dec = lib.make_decoder(spec, T)
    hits = [tuple(x) for x in case["hits"]]
    if case["kind"] == "syndrome":
        g = dec.S[key]
    elif case["kind"] == "own":
        g = rx.PyGraph(multigraph=False)
        nodes, edges, gone = case["own"]
        idx = [g.add_node(tuple(n)) for n in nodes]
        for a, b, w in edges:
            if a != b:
                g.add_edge(idx[a], idx[b], w)
        for j in sorted(set(gone)):
            if j < len(idx):
                g.remove_node(idx[j])
    else:
        g = lib.method(dec, "_make_error_graph")(list(hits), key, err_prob=p)
        if case["kind"] == "matched":
            g = lib.method(dec, "_run_mwpm_graph")(g, floats=p is not None)
    plt.close("all")
    try:
        if case["open"]:  # the user's own figure
            own = plt.figure()
            own_ax = own.subplots()
        if case["earlier"] is not None:  # a drawing of another graph, still on show
            keys = lib.bases(spec)
            first, first_ax = (dec.draw3D if case["direct"] else dec.draw)(dec.S[keys[case["earlier"] % len(keys)]])
            held = (list(first.axes), contents(first_ax))
            require(first.number in plt.get_fignums(), "the first drawing is not on show")
        before = set(plt.get_fignums())
        kw = {}
        if T == 1 and case["dpi"] and not case["direct"]:
            kw["dpi"] = case["dpi"]
        if case["show"] is not None:
            kw["show"] = case["show"]
        state = ([tuple(n) for n in g.nodes()], sorted(map(tuple, g.edge_list())), list(g.edges()))
        r = (dec.draw3D if case["direct"] else dec.draw)(g, **kw)
        require(isinstance(r, tuple) and len(r) == 2, "draw returned %r, not the figure and its axes", r)
        fig, ax = r
        require(ax in fig.axes, "draw returned axes that are not on the figure it returned")
        after = set(plt.get_fignums())
        if case["show"] is False:
            require(after == before, "a figure is left open although showing was turned off")
        else:
            require(fig.number in after - before, "the drawing is not on a new figure to be shown")
        if "dpi" in kw:
            require(fig.dpi == kw["dpi"], "dpi is %s, %s was asked for", fig.dpi, kw["dpi"])
        if case["open"]:
            require(not own_ax.collections and not own_ax.texts and own.axes == [own_ax], "the drawing went to the user's own figure")
        if case["earlier"] is not None:
            require(fig is not first and (list(first.axes), contents(first_ax)) == held, "the drawing changed an earlier one")
        require(state == ([tuple(n) for n in g.nodes()], sorted(map(tuple, g.edge_list())), list(g.edges())), "drawing changed the graph")
        nodes, texts, segs = contents(ax)
    finally:
        plt.close("all")
    mid = (T - 1) / 2

    def pos(n):
        return (n[2], -n[1]) if T == 1 and not case["direct"] else (n[2], -n[1], mid if n[0] == -1 else n[0])

    want = {i: pos(tuple(g[i])) for i in g.node_indices()}
    require(len(nodes) == len(want), "%d nodes drawn, the graph has %d", len(nodes), len(want))
    left = list(texts)
    for i, at in want.items():
        n = tuple(g[i])
        require(any(near(at, x) for x in nodes), "node %s is not drawn at %s", n, at)
        mine = [t for t in left if near(t[0], at) and t[1].replace(" ", "") == str(n).replace(" ", "")]
        require(mine, "node %s has no label at %s; labels %s", n, at, texts)
        left.remove(mine[0])
    rest = [sorted(s) for s in segs]
    for a, b in g.edge_list():
        w = g.get_edge_data(a, b)
        ends = sorted((want[a], want[b]))
        mine = [s for s in rest if len(s) == 2 and near(s[0], ends[0]) and near(s[1], ends[1])]
        require(mine, "edge %s - %s is not drawn", g[a], g[b])
        rest.remove(mine[0])
        centre = tuple((x + y) / 2 for x, y in zip(*ends))
        mine = [t for t in left if near(t[0], centre) and number(t[1]) is not None and abs(number(t[1]) - w) < 0.0051]
        require(mine, "edge %s - %s has no label %s at its centre; labels there: %s", g[a], g[b], w, [t for t in left if near(t[0], centre)])
        left.remove(mine[0])
    require(not rest, "lines drawn that are not edges: %s", rest[:3])
    require(not left, "labels that belong to nothing: %s", left[:3])
    return len(state[1]) >= 3, [case["kind"], "T=%d" % T, spec["code"]]


OPS = ["reset_x", "reset_z", "x", "z", "stabilize", "id", "id_data", "readout_x", "readout_z"]


@st.composite
def text_cases(draw, tier):
    n = draw(st.integers(1, 3))
    return {"specs": [draw(lib.specs(3, 9)) for _ in range(n)], "ops": draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(OPS)).map(list), max_size=6)),
            "fold": draw(st.sampled_from([None, 40, 120])), "reg": draw(st.booleans()), "idle": draw(st.sampled_from([None, True, False]))}


def check_text(case):
    treg = TopologicalRegister(ctypes=[s["code"] for s in case["specs"]], params=[lib.params_of(s) for s in case["specs"]])
    tc = TopologicalCircuit(treg)
    for i, op in case["ops"]:
        getattr(treg[i], op)()
    kw = {"output": "text"}
    if case["fold"]:
        kw["fold"] = case["fold"]
    if case["idle"] is not None:
        kw["idle_wires"] = case["idle"]
    n = len(tc.circ.data)
    want = str(tc.circ.draw(**kw))
    for what, o in [("circuit", tc)] + [("qubit %d" % i, treg[i]) for i in range(len(case["specs"]))]:
        require(str(o) == str(tc.circ), "the text of %s is not that of the circuit", what)
        require(str(o.draw(**kw)) == want, "the drawing of %s with %s is not that of the circuit", what, kw)
    require(len(tc.circ.data) == n, "drawing changed the circuit")
    return len(case["ops"]) >= 3, ["n=%d" % len(case["specs"])]


PARTS = [
    Part("graphs", lambda tier: graph_cases(tier), check_graph, 280, 5000),
    Part("circuits", lambda tier: text_cases(tier), check_text, 120, 800),
]
