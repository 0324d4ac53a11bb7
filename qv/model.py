"""Reference model of the codes, written from the documentation (grid conventions of the
tutorials), not from the code under test.

Grid: data qubit (r, c) has index r*dw + c.  Plaquettes sit at half-integer centres (i, j) and touch
the data qubits (i+-1/2, j+-1/2) that exist.  X plaquettes: i+j even, columns 0.5..dw-1.5 (rows may
hang over the top/bottom edge).  Z plaquettes: i+j odd, rows 0.5..dh-1.5 (columns may hang over the
left/right edge).  Both are numbered row-major.  Logical X: left column, logical Z: top row.
The XZZX code is the same lattice with X and Z exchanged on the even-numbered data qubits.
"""
from functools import lru_cache

XXZZ, XZZX, REP = "XXZZ", "XZZX", "Repetition"


@lru_cache(None)
def plaquettes(dh, dw):
    """{'X': [(i, j), ...], 'Z': [...]} in numbering order."""
    xs, zs = [], []
    for a in range(-1, dh):
        i = a + 0.5
        for b in range(-1, dw):
            j = b + 0.5
            if (i + j) % 2 == 0:
                if 0 <= j <= dw - 1:
                    xs.append((i, j))
            elif 0 <= i <= dh - 1:
                zs.append((i, j))
    return {"X": xs, "Z": zs}


def support(dh, dw, centre):
    i, j = centre
    out = []
    for r in (int(i - 0.5), int(i + 0.5)):
        for c in (int(j - 0.5), int(j + 0.5)):
            if 0 <= r < dh and 0 <= c < dw:
                out.append(r * dw + c)
    return out


def typed(code, kind, idxs):
    """[(data index, pauli letter)] of an operator that is all-`kind` on the CSS code."""
    out = []
    for i in idxs:
        p = kind
        if code == XZZX and i % 2 == 0:
            p = {"X": "Z", "Z": "X"}[kind]
        out.append((i, p))
    return out


@lru_cache(None)
def stabilizers(code, dh, dw):
    """{'X': [terms...], 'Z': [terms...]} in numbering order."""
    pl = plaquettes(dh, dw)
    return {k: [typed(code, k, support(dh, dw, c)) for c in pl[k]] for k in "XZ"}


def logical(code, kind, dh, dw):
    if kind == "X":
        return typed(code, "X", range(0, dh * dw, dw))
    return typed(code, "Z", range(dw))


def num_syn(dh, dw):
    pl = plaquettes(dh, dw)
    return len(pl["X"]), len(pl["Z"])


def flips(code, dh, dw, idx, pauli):
    """Plaquettes whose value is flipped by a Pauli on one data qubit: {'X': [centres], 'Z': ...}."""
    out = {"X": [], "Z": []}
    st = stabilizers(code, dh, dw)
    pl = plaquettes(dh, dw)
    for k in "XZ":
        for c, terms in zip(pl[k], st[k]):
            for q, p in terms:
                if q == idx and p != pauli and pauli != "I":
                    out[k].append(c)
    return out


def flips_logical(code, dh, dw, kind, idx, pauli):
    return any(q == idx and p != pauli for q, p in logical(code, kind, dh, dw)) and pauli != "I"


# ---- readout strings -----------------------------------------------------------------------


def round_string(dh, dw, x_bits, z_bits):
    """One syndrome chunk: X_N..X_0 Z_N..Z_0."""
    return "".join(map(str, reversed(x_bits))) + "".join(map(str, reversed(z_bits)))


def ref_parse_rounds(dh, dw, rounds):
    """rounds: oldest first, each ({centre: bit} for X, for Z).  Hits as sorted (t, i, j)."""
    out = {"X": [], "Z": []}
    for t, (a, b) in enumerate(zip(rounds, rounds[1:])):
        for k in "XZ":
            for c in a[k]:
                if a[k][c] ^ b[k][c]:
                    out[k].append((t, c[0], c[1]))
    return {k: sorted(v) for k, v in out.items()}


# ---- matching reference ----------------------------------------------------------------------


@lru_cache(None)
def boundary(dh, dw, key):
    """Virtual nodes: {'near': [...], 'far': [...]}; near is the side of the logical readout row /
    column (Z: top, X: left)."""
    if key == "Z":
        near = [(-1, -0.5, j - 0.5) for j in range(0, dw, 2)]
        far = [(-1, dh - 0.5, j + 0.5) for j in range(0, dw, 2)]
    else:
        near = [(-1, j + 0.5, -0.5) for j in range(0, dh, 2)]
        far = [(-1, j - 0.5, dw - 0.5) for j in range(0, dh, 2)]
    return {"near": near, "far": far}


@lru_cache(None)
def fault_graph(dh, dw, T, key):
    """Adjacency {node: {neighbour,...}} of elementary faults as seen by the `key` plaquettes:
    one edge per data qubit and time (between the two key-plaquettes it touches, or one and the
    boundary), one edge per plaquette and consecutive time pair (measurement flip)."""
    adj = {}
    pl = set(plaquettes(dh, dw)[key])

    def edge(a, b):
        adj.setdefault(a, set()).add(b)
        adj.setdefault(b, set()).add(a)

    for t in range(T):
        for (i, j) in pl:
            adj.setdefault((t, i, j), set())
            if t + 1 < T:
                edge((t, i, j), (t + 1, i, j))
        for r in range(dh):
            for c in range(dw):
                ends = []
                for di in (-0.5, 0.5):
                    for dj in (-0.5, 0.5):
                        i, j = r + di, c + dj
                        par = (i + j) % 2
                        if par != (0 if key == "X" else 1):
                            continue
                        ends.append((t, i, j) if (i, j) in pl else (-1, i, j))
                if len(ends) == 2:
                    edge(*ends)
    return adj


@lru_cache(None)
def bfs(dh, dw, T, key, src):
    """(distance, number of shortest paths) maps from src in the fault graph."""
    adj = fault_graph(dh, dw, T, key)
    dist = {src: 0}
    cnt = {src: 1}
    frontier = [src]
    while frontier:
        nxt = []
        for u in frontier:
            for v in adj[u]:
                if v not in dist:
                    dist[v] = dist[u] + 1
                    cnt[v] = 0
                    nxt.append(v)
                if dist[v] == dist[u] + 1:
                    cnt[v] += cnt[u]
        frontier = nxt
    return dist, cnt
