"""Shared pieces of the property modules: specs of codes, rigs that run the real circuits on the
reference simulator, and the ideal-qubit model."""
import os
import signal

from hypothesis import strategies as st

from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister

from qtcodes import (
    XXZZQubit,
    XZZXQubit,
    RepetitionQubit,
    RotatedDecoder,
    RepetitionDecoder,
)

from qv import model
from qv.core import Skip, Violation, require
from qv.sim import Machine, Pauli, Tableau, evaluate, grow, SimUnsupported

CODES = ("XXZZ", "XZZX", "Repetition")
CLS = {"XXZZ": XXZZQubit, "XZZX": XZZXQubit, "Repetition": RepetitionQubit}

# ---- specs -------------------------------------------------------------------------------------


def dims2(maxd, maxdata, minh=1, minw=1):
    out = []
    for h in range(minh, maxd + 1, 2):
        for w in range(minw, maxd + 1, 2):
            if (h, w) != (1, 1) and h * w <= maxdata:
                out.append((h, w))
    return out


def specs(maxd=7, maxdata=35, codes=CODES, minh=1, minw=1, oned=True, long=13):
    """Strategy of {"code", "d": [h, w], "scalar"}; small lattices are not favoured over large.
    Up to maxd x maxd with maxdata data qubits, plus strips of width 1 and 3 up to `long`."""
    all_ = dims2(maxd, maxdata, minh, minw)
    for k in (1, 3):
        for l in range(maxd + 2, long + 1, 2):
            if k * l <= max(maxdata, 3 * long):
                all_ += [s for s in ((k, l), (l, k)) if s[0] >= minh and s[1] >= minw]
    if not oned:
        all_ = [d for d in all_ if 1 not in d]
    surf = [d for d in all_]
    rep = [d for d in dims2(max(2 * maxd - 1, long), maxdata) if 1 in d]
    pool = []
    for c in codes:
        if c == "Repetition":
            pool.extend({"code": c, "d": list(d)} for d in rep)
        else:
            pool.extend({"code": c, "d": list(d)} for d in surf)
    by_code = {c: [s for s in pool if s["code"] == c] for c in codes}
    weights = [c for c in codes for _ in range(1 if c == "Repetition" else 2)]

    @st.composite
    def gen(draw):
        c = draw(st.sampled_from(weights))
        s = dict(draw(st.sampled_from(by_code[c])))
        s["scalar"] = draw(st.booleans())
        return s

    return gen()


def large_specs(maxdata=121):
    """Lattices far beyond the usual ones, from 37 data qubits on, and long one-dimensional ones."""
    hw = [(h, w) for h in range(1, 18, 2) for w in range(1, 18, 2) if 35 < h * w <= maxdata]

    @st.composite
    def gen(draw):
        if draw(st.integers(0, 4)) == 0:
            k = draw(st.sampled_from(range(15, 62, 2)))
            d, codes = draw(st.sampled_from([[1, k], [k, 1]])), ["XXZZ", "XZZX", "Repetition"]
        else:
            d, codes = list(draw(st.sampled_from(hw))), ["XXZZ", "XZZX"]
        return {"code": draw(st.sampled_from(codes)), "d": d, "scalar": draw(st.booleans())}

    return gen()


def dims(spec):
    return spec["d"][0], spec["d"][1]


def params_of(spec):
    h, w = dims(spec)
    code = spec["code"]
    if code == "Repetition":
        if h == 1:
            p = {"d": w if spec.get("scalar") else (1, w), "phase-flip-protected": True}
        else:
            p = {"d": h if spec.get("scalar") else (h, 1)}
        return p
    if spec.get("scalar") and h == w:
        return {"d": h}
    return {"d": (h, w)}


def make_qubit(spec, name="tq", circ=None):
    return CLS[spec["code"]](params_of(spec), name=name, circ=circ)


def make_decoder(spec, T):
    p = params_of(spec)
    p["T"] = T
    if spec["code"] == "Repetition":
        return RepetitionDecoder(p)
    return RotatedDecoder(p)


def ndata(spec):
    return spec["d"][0] * spec["d"][1]


def nsyn(spec):
    return model.num_syn(*dims(spec))


def method(obj, name):
    """A method that only the tutorials document; the cases that need it are skipped where it is missing."""
    f = getattr(obj, name, None)
    if f is None:
        raise Skip("no method %s" % name)
    return f


def data_qubits(q):
    return list(q.lattice.qregisters["data"])


def own_qubits(q):
    return [b for r in q.lattice.qregisters.values() for b in r]


def bases(spec):
    """Bases whose logical value the code protects by syndromes (a plaquette type must exist)."""
    nx, nz = nsyn(spec)
    return [b for b, n in (("X", nx), ("Z", nz)) if n]


def dist(spec, basis):
    """Length of the shortest logical error that flips a readout in this basis."""
    h, w = dims(spec)
    return h if basis == "Z" else w


# ---- running circuits ----------------------------------------------------------------------------


class Rig:
    """A shared circuit, executed step by step as calls append to it."""

    def __init__(self, extra=0, circ=None, coins=None):
        self.circ = QuantumCircuit() if circ is None else circ
        self.m = Machine(self.circ, extra=extra, coins=coins)
        self.seen = Span()

    def add(self, spec, name="tq"):
        q = make_qubit(spec, name=name, circ=self.circ)
        require(q.circ is self.circ, "the qubit does not use the circuit it was given")
        self.m.run()
        return q

    def call(self, fn, *a, **k):
        """Run fn, execute what it appended, return the classical registers it added."""
        n0 = len(self.circ.cregs)
        fn(*a, **k)
        self.m.run()
        return self.circ.cregs[n0:]

    def one_creg(self, size, fn, *a, **k):
        regs = self.call(fn, *a, **k)
        require(len(regs) == 1, "expected one new classical register, got %d", len(regs))
        require(regs[0].size == size, "new register has %d bits, expected %d", regs[0].size, size)
        return regs[0]

    def bits(self, reg):
        return self.m.creg(reg)

    @property
    def tab(self):
        return self.m.tab

    def idx(self, qubits):
        return [self.m.q(b) for b in qubits]

    def pauli(self, q, terms):
        """Pauli on data qubits of q given as [(data index, letter)]."""
        d = self.idx(data_qubits(q))
        return Pauli(self.tab.n, [(d[i], p) for i, p in terms])

    def apply(self, q, terms, expr=1):
        self.tab.apply_pauli(self.pauli(q, terms), expr)


CALLS = ["stabilize", "reset_x", "reset_z", "x", "z", "x_c_if", "z_c_if", "cx_control", "cx_target", "readout_x", "readout_z",
         "lattice_readout_x", "lattice_readout_z", "id", "id_data"]


READS = ["stabilize", "readout_x", "readout_z", "readout_x", "readout_z", "lattice_readout_x", "lattice_readout_z"]
CHANGES = ["x", "z", "x_c_if", "z_c_if", "cx_control", "cx_target", "id_data", "reset_x", "reset_z"]


def calls(max_size, without=()):
    """Any other calls of a qubit, as a past the checked call must not depend on."""
    call = lambda names: st.tuples(st.sampled_from([c for c in names if c not in without]), st.sampled_from([0, 0, 1])).map(list)
    some = st.lists(call(CALLS), max_size=max_size)
    if max_size < 2:
        return some
    # a value is read, then changed: what the code may have kept of it no longer holds
    return st.one_of(some, st.tuples(call(READS), call(CHANGES)).map(list))


class Past:
    """Makes such calls; their effects are taken as they come."""

    def __init__(self, rig, q):
        self.rig, self.q = rig, q
        self.qreg, self.creg = QuantumRegister(2, q.name + "past_q"), ClassicalRegister(1, q.name + "past_c")
        rig.circ.add_register(self.qreg, self.creg)
        rig.circ.h(self.qreg[1])
        rig.m.run()

    def do(self, ops):
        """-> the bits recorded"""
        out = []
        for kind, k in ops:
            if kind.endswith("c_if"):
                regs = self.rig.call(getattr(self.q, kind), self.creg, k)
            elif kind.startswith("cx"):
                regs = self.rig.call(self.q.cx, **{kind[3:]: self.qreg[k]})
            else:
                regs = self.rig.call(getattr(self.q, kind))
            for r in regs:
                out += self.rig.bits(r)
        return out


class Span:
    """Linear span over GF(2) of the linear parts of expressions."""

    def __init__(self):
        self.basis = {}

    def reduce(self, expr):
        v = expr >> 1
        while v:
            h = v.bit_length()
            if h not in self.basis:
                return v
            v ^= self.basis[h]
        return 0

    def add(self, expr):
        v = self.reduce(expr)
        if v:
            self.basis[v.bit_length()] = v
            return True
        return False


class Ideal:
    """Ideal qubits refined against the actual run: outcomes the ideal leaves open are forced to the
    actual expression, which must then be a fresh fair coin given everything recorded before."""

    def __init__(self, n):
        self.t = Tableau(n)
        self.map = list(range(n))

    def add(self):
        grow(self.t, self.t.n + 1)
        self.map.append(self.t.n - 1)
        return len(self.map) - 1

    def reset(self, k, basis="Z"):
        grow(self.t, self.t.n + 1)  # the old qubit becomes environment
        self.map[k] = self.t.n - 1
        if basis == "X":
            self.t.h(self.map[k])

    def gate(self, name, *ks, expr=1):
        q = [self.map[k] for k in ks]
        if name in ("X", "Y", "Z"):
            self.t.pauli1(q[0], name, expr)
        elif name == "cx":
            self.t.cx(*q)
        elif name == "h":
            self.t.h(*q)
        elif name == "s":
            self.t.s_gate(*q)
        else:
            raise ValueError(name)

    def pauli(self, terms):
        return Pauli(self.t.n, [(self.map[k], p) for k, p in terms])

    def observe(self, terms, actual, seen, what):
        p = self.pauli(terms)
        e = self.t.expectation(p)
        if e is not None:
            require(
                actual == e,
                "%s: outcome is %s, the ideal qubit gives %s",
                what,
                describe(actual),
                describe(e),
            )
        else:
            require(
                seen.reduce(actual) != 0,
                "%s: outcome %s is fixed by earlier records, the ideal qubit gives a fair coin",
                what,
                describe(actual),
            )
            self.t.measure(p, force=actual)
        seen.add(actual)


def describe(e):
    if e in (0, 1):
        return str(e)
    lin = [str(k - 1) for k in range(1, e.bit_length()) if (e >> k) & 1]
    return ("1+" if e & 1 else "") + "+".join("c" + k for k in lin)


def bell(rig, qubits, offset=0):
    """Entangle tableau reference qubits offset.. with the given circuit qubits (all in |0>)."""
    for k, b in enumerate(qubits):
        rig.tab.h(offset + k)
        rig.tab.cx(offset + k, rig.m.q(b))


def clear(tab, idxs):
    for i in idxs:
        tab.reset(i)


def same_state(actual, ideal, what):
    if actual.canonical() != ideal.canonical():
        raise Violation(what)


def cliffords(tab, idxs, ops):
    """Apply a list of [name, a, b] on tableau qubits idxs (a, b taken modulo)."""
    n = len(idxs)
    for name, a, b in ops:
        x, y = idxs[a % n], idxs[b % n]
        if name == "h":
            tab.h(x)
        elif name == "s":
            tab.s_gate(x)
        elif name in "XYZ":
            tab.pauli1(x, name)
        elif name == "cx" and x != y:
            tab.cx(x, y)
        elif name == "cz" and x != y:
            tab.cz(x, y)


def clifford_ops(max_size=8):
    return st.lists(
        st.tuples(
            st.sampled_from(["h", "s", "cx", "cz", "X", "Y", "Z"]),
            st.integers(0, 80),
            st.integers(0, 80),
        ).map(list),
        max_size=max_size,
    )


# ---- strings -------------------------------------------------------------------------------------


def bits_string(bits):
    """bits: bit 0 first -> the text qiskit prints."""
    return "".join(str(b) for b in reversed(bits))


def eval_bits(exprs, a):
    return [evaluate(e, a) for e in exprs]


def readout_string(rounds, final):
    """rounds: oldest first, lists of bits; final: list of bits."""
    return " ".join([bits_string(final)] + [bits_string(r) for r in reversed(rounds)])


def assignments(n=3):
    """Concrete outcomes for the coins (bit k+1 = coin k), long enough for any run."""
    return st.lists(st.integers(0, (1 << 400) - 1), min_size=n, max_size=n)


def norm_hits(h):
    return {k: sorted((int(t), float(i), float(j)) for t, i, j in h.get(k, [])) for k in ("X", "Z")}


def ref_hits(spec, rounds):
    """rounds: oldest first, each {'X': bits, 'Z': bits} in numbering order."""
    h, w = dims(spec)
    pl = model.plaquettes(h, w)
    out = {"X": [], "Z": []}
    for t, (a, b) in enumerate(zip(rounds, rounds[1:])):
        for k in "XZ":
            for c, u, v in zip(pl[k], a[k], b[k]):
                if u ^ v:
                    out[k].append((t, c[0], c[1]))
    return {k: sorted(v) for k, v in out.items()}


def split_round(spec, bits):
    """Syndrome register bits (bit 0 first) -> {'X': [...], 'Z': [...]} in numbering order."""
    nx, nz = nsyn(spec)
    return {"Z": bits[:nz], "X": bits[nz:]}


def join_round(xbits, zbits):
    return list(zbits) + list(xbits)


# ---- distributions -------------------------------------------------------------------------------


def signature(exprs):
    """Canonical form of the joint distribution of affine expressions in fair coins: each is either a
    fresh coin, or a fixed combination (constant, indices) of the fresh ones before it."""
    basis = {}  # leading bit -> (vector, constant, set of fresh indices)
    out = []
    for k, e in enumerate(exprs):
        v, c, s = e >> 1, e & 1, frozenset()
        while v:
            hb = v.bit_length()
            if hb not in basis:
                break
            bv, bc, bs = basis[hb]
            v ^= bv
            c ^= bc
            s = s ^ bs
        if v:
            # v = e + (combination s) ; e is fresh, with index k
            basis[v.bit_length()] = (v, c, s ^ frozenset([k]))
            out.append("fresh")
        else:
            out.append((c, tuple(sorted(s))))
    return out


# ---- decoder references ----------------------------------------------------------------------------


def subsets(nodes, max_size, min_size=0):
    """Lists of distinct elements of nodes, in arbitrary order, sizes spread evenly."""
    nodes = list(nodes)

    @st.composite
    def gen(draw):
        top = min(max_size, len(nodes))
        k = draw(st.integers(min(min_size, top), top))
        idx = draw(st.lists(st.integers(0, len(nodes) - 1), min_size=k, max_size=k, unique=True))
        return [list(nodes[i]) for i in idx]

    return gen()


def decoder_specs(maxd=7, maxdata=49, minkeys=1):
    """{"kind", "d", "scalar"} for decoders with at least one plaquette type."""

    @st.composite
    def gen(draw):
        if draw(st.integers(0, 3)) == 0:
            k = draw(st.integers(1, maxd)) * 2 + 1
            h, w = draw(st.sampled_from([(k, 1), (1, k)]))
            return {"code": "Repetition", "d": [h, w], "scalar": draw(st.booleans())}
        h, w = draw(st.sampled_from(dims2(maxd, maxdata)))
        return {"code": draw(st.sampled_from(["XXZZ", "XZZX"])), "d": [h, w], "scalar": draw(st.booleans())}

    return gen()


def hit_nodes(spec, T, key):
    h, w = dims(spec)
    return [(t,) + c for t in range(T) for c in model.plaquettes(h, w)[key]]


import math  # noqa: E402


@st.composite
def sparse_hits(draw, tier):
    """A few hits near the middle of a lattice, with quiet rounds in between."""
    spec = draw(decoder_specs(13, 143 if tier == "quick" else 225))
    key = draw(st.sampled_from(bases(spec)))
    T = draw(st.integers(5, 14 if ndata(spec) < 90 else 8))
    nodes = hit_nodes(spec, T, key)
    bd = model.boundary(*dims(spec), key)
    virt = [v[1:] for v in bd["near"] + bd["far"]]

    def depth(n):
        return min(max(abs(n[1] - v[0]), abs(n[2] - v[1])) for v in virt)

    deepest = max(map(depth, nodes))
    away = draw(st.sampled_from([0, 1, 1, 2]))
    places = sorted({n[1:] for n in nodes if depth(n) >= deepest - away})
    hits = set()
    for _ in range(draw(st.integers(1, 3))):
        r, c = draw(st.sampled_from(places))
        near = [n for n in nodes if abs(n[1] - r) <= 1 and abs(n[2] - c) <= 1]
        hits |= {draw(st.sampled_from([n for n in near if n[1:] == (r, c)])), draw(st.sampled_from(near))}
    return {"spec": spec, "T": T, "key": key, "hits": sorted(map(list, hits))}


def pair_weight(spec, T, key, a, b, p=None):
    """Reference weight (positive) of a match between two nodes of the fault graph."""
    h, w = dims(spec)
    bd = model.boundary(h, w, key)
    virt = bd["near"] + bd["far"]
    av, bv = a in virt, b in virt
    if av and bv:
        return 0.0
    src, dst = (b, a) if av else (a, b)
    dist_, cnt = model.bfs(h, w, T, key, src)
    d = float(dist_[dst])
    if p:
        if av or bv:
            deg = sum(cnt[v] for v in virt if dist_[v] == dist_[dst])
        else:
            deg = cnt[dst]
        d -= math.log(deg) / math.log((1 - p) / p)
    return d


def class_costs(spec, T, key, hits, p=None):
    """Minimum weight over all pairings, separately for even and odd number of matches to the near
    boundary; each boundary node is used at most once."""
    from functools import lru_cache

    h, w = dims(spec)
    bd = model.boundary(h, w, key)
    near = set(bd["near"])
    virt = bd["near"] + bd["far"]
    hits = [tuple(x) for x in hits]
    n = len(hits)
    wv = [[pair_weight(spec, T, key, a, v, p) for v in virt] for a in hits]
    wh = [[0.0 if a == b else pair_weight(spec, T, key, a, b, p) for b in hits] for a in hits]
    INF = float("inf")

    @lru_cache(None)
    def best(mask, used):
        if mask == (1 << n) - 1:
            return (0.0, INF)
        i = 0
        while (mask >> i) & 1:
            i += 1
        r = [INF, INF]
        for j in range(i + 1, n):
            if not (mask >> j) & 1:
                s = best(mask | (1 << i) | (1 << j), used)
                for c in (0, 1):
                    r[c] = min(r[c], s[c] + wh[i][j])
        for k, v in enumerate(virt):
            if not (used >> k) & 1:
                s = best(mask | (1 << i), used | (1 << k))
                f = 1 if v in near else 0
                for c in (0, 1):
                    r[c ^ f] = min(r[c ^ f], s[c] + wv[i][k])
        return tuple(r)

    return best(0, 0)


def class_costs_matching(spec, T, key, hits, p=None):
    """Same as class_costs, by minimum-weight perfect matching, for any number of hits: boundary nodes
    of one side pair up among themselves at no cost, and a spare node on a side fixes its parity."""
    import networkx as nx

    h, w = dims(spec)
    bd = model.boundary(h, w, key)
    hits = [tuple(x) for x in hits]
    n = len(hits)
    base = nx.Graph()
    for i, a in enumerate(hits):
        base.add_node(a)
        for b in hits[:i]:
            base.add_edge(a, b, weight=pair_weight(spec, T, key, a, b, p))
        for v in bd["near"] + bd["far"]:
            base.add_edge(a, v, weight=pair_weight(spec, T, key, a, v, p))
    out = []
    for c in (0, 1):
        g = base.copy()
        for side, par in (("near", c), ("far", (n - c) % 2)):
            vs = list(bd[side])
            if (len(vs) - par) % 2:
                vs.append("spare " + side)
            for i, u in enumerate(vs):
                g.add_node(u)
                for v in vs[:i]:
                    g.add_edge(u, v, weight=0.0)
        m = nx.min_weight_matching(g)
        out.append(sum(g[a][b]["weight"] for a, b in m) if 2 * len(m) == g.number_of_nodes() else float("inf"))
    return tuple(out)


def child(f):
    """Runs f in a forked child; -> (exit status or -signal, what f wrote to the pipe)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(0)
            out = f()
            os.write(w, repr(out).encode())
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        x = os.read(r, 4096)
        if not x:
            break
        data += x
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), data.decode()
