"""Symbolic-sign stabilizer simulator: the independent reference semantics for qiskit circuits.

It reads a qiskit QuantumCircuit and computes every measurement outcome *exactly*, as an affine
GF(2) expression over the random coins of the run (and over caller-supplied symbols: injected
errors, unknown inputs).  No amplitudes, no sampling, so one run covers all 2^k histories.

Expressions are python ints: bit 0 is the constant, bit k+1 is symbol k.
Rows are Paulis in the form  i^ph * X^x * Z^z  with an extra symbolic sign.
"""
import numpy as np


class SimUnsupported(Exception):
    """The circuit uses something outside the supported (Clifford + feed-forward Pauli) set."""


class Pauli:
    """i^ph X^x Z^z on n qubits (x, z uint8 arrays)."""

    __slots__ = ("x", "z", "ph")

    def __init__(self, n, terms=()):
        """terms: iterable of (qubit, 'X'|'Y'|'Z'); the product is Hermitian with sign +1 for
        distinct qubits."""
        self.x = np.zeros(n, dtype=np.uint8)
        self.z = np.zeros(n, dtype=np.uint8)
        self.ph = 0
        for q, p in terms:
            if p in "XY":
                self.x[q] ^= 1
            if p in "ZY":
                self.z[q] ^= 1
            if p == "Y":
                self.ph = (self.ph + 1) % 4

    def commutes(self, other):
        return (int(self.x @ other.z.astype(int)) + int(self.z @ other.x.astype(int))) % 2 == 0


class Tableau:
    def __init__(self, n, coins=None):
        """coins: None for symbolic coins, or a callable returning 0/1 for concrete runs."""
        self.n = n
        self.x = np.zeros((2 * n, n), dtype=np.uint8)
        self.z = np.zeros((2 * n, n), dtype=np.uint8)
        idx = np.arange(n)
        self.x[idx, idx] = 1  # destabilizers
        self.z[idx + n, idx] = 1  # stabilizers
        self.ph = np.zeros(2 * n, dtype=np.int64)
        self.nsym = 0
        self.s = np.zeros((2 * n, 64), dtype=np.uint8)  # column 0: unused (constant lives in ph)
        self.coins = coins

    # -- symbols ---------------------------------------------------------------------------
    def new_symbol(self):
        k = self.nsym
        self.nsym += 1
        if k + 1 >= self.s.shape[1]:
            self.s = np.concatenate([self.s, np.zeros_like(self.s)], axis=1)
        return 1 << (k + 1)

    def coin(self):
        if self.coins is not None:
            return int(self.coins()) & 1
        return self.new_symbol()

    def _widen(self, expr):
        while expr.bit_length() > self.s.shape[1]:
            self.s = np.concatenate([self.s, np.zeros_like(self.s)], axis=1)

    def _cols(self, expr):
        out = []
        e = expr >> 1
        k = 1
        while e:
            if e & 1:
                out.append(k)
            e >>= 1
            k += 1
        return out

    def _row_expr(self, srow):
        e = 0
        for k in np.flatnonzero(srow):
            e |= 1 << int(k)
        return e

    # -- gates ------------------------------------------------------------------------------
    def h(self, q):
        x, z = self.x[:, q].copy(), self.z[:, q]
        self.ph += 2 * (x & z).astype(np.int64)
        self.x[:, q] = z
        self.z[:, q] = x

    def s_gate(self, q):
        self.ph += self.x[:, q]
        self.z[:, q] ^= self.x[:, q]

    def sdg(self, q):
        self.ph += 3 * self.x[:, q].astype(np.int64)
        self.z[:, q] ^= self.x[:, q]

    def cx(self, c, t):
        self.x[:, t] ^= self.x[:, c]
        self.z[:, c] ^= self.z[:, t]

    def cz(self, a, b):
        self.ph += 2 * (self.x[:, a] & self.x[:, b]).astype(np.int64)
        self.z[:, a] ^= self.x[:, b]
        self.z[:, b] ^= self.x[:, a]

    def swap(self, a, b):
        self.x[:, [a, b]] = self.x[:, [b, a]]
        self.z[:, [a, b]] = self.z[:, [b, a]]

    def pauli1(self, q, p, expr=1):
        """Apply X/Y/Z on q conditioned on the expression (1: always)."""
        if expr == 0:
            return
        if p == "X":
            anti = self.z[:, q]
        elif p == "Z":
            anti = self.x[:, q]
        elif p == "Y":
            anti = self.z[:, q] ^ self.x[:, q]
        else:
            return
        self._widen(expr)
        if expr & 1:
            self.ph += 2 * anti.astype(np.int64)
        for k in self._cols(expr):
            self.s[:, k] ^= anti

    def apply_pauli(self, pauli, expr=1):
        anti = ((self.x @ pauli.z.astype(np.int64)) + (self.z @ pauli.x.astype(np.int64))) & 1
        anti = anti.astype(np.uint8)
        self._widen(expr)
        if expr & 1:
            self.ph += 2 * anti.astype(np.int64)
        for k in self._cols(expr):
            self.s[:, k] ^= anti

    # -- measurement ------------------------------------------------------------------------
    def _mul_into(self, rows, p):
        """rows *= row p  (row on the left, p on the right)."""
        cross = (self.z[rows].astype(np.int64) @ self.x[p].astype(np.int64)) & 1
        self.ph[rows] += self.ph[p] + 2 * cross
        self.x[rows] ^= self.x[p]
        self.z[rows] ^= self.z[p]
        self.s[rows] ^= self.s[p]

    def measure(self, pauli, force=None):
        """Projectively measure a Hermitian Pauli; return (expr, was_random).
        force: expression to use instead of a fresh coin when the outcome is random."""
        n = self.n
        anti = ((self.x @ pauli.z.astype(np.int64)) + (self.z @ pauli.x.astype(np.int64))) & 1
        stab_anti = np.flatnonzero(anti[n:])
        if len(stab_anti):
            p = n + int(stab_anti[0])
            rows = np.flatnonzero(anti)
            rows = rows[(rows != p)]
            if len(rows):
                self._mul_into(rows, p)
            self.x[p - n] = self.x[p]
            self.z[p - n] = self.z[p]
            self.ph[p - n] = self.ph[p]
            self.s[p - n] = self.s[p]
            self.x[p] = pauli.x
            self.z[p] = pauli.z
            expr = self.coin() if force is None else force
            self._widen(expr)
            self.s[p] = 0
            for k in self._cols(expr):
                self.s[p, k] = 1
            self.ph[p] = pauli.ph + 2 * (expr & 1)
            return expr, True
        sel = np.flatnonzero(anti[:n]) + n
        if not len(sel):
            # identity up to sign
            e = ((-pauli.ph) % 4) // 2 if not (pauli.x.any() or pauli.z.any()) else 0
            return e, False
        xs, zs = self.x[sel], self.z[sel]
        # product of rows in order: phase = sum ph + 2 * sum_j (xor_{i<j} z_i) . x_j
        pre = np.zeros_like(zs)
        if len(sel) > 1:
            pre[1:] = np.bitwise_xor.accumulate(zs, axis=0)[:-1]
        cross = int((pre & xs).astype(np.int64).sum())
        ph = (int(self.ph[sel].sum()) + 2 * cross - pauli.ph) % 4
        assert ph % 2 == 0, "non-Hermitian product"
        srow = np.bitwise_xor.reduce(self.s[sel], axis=0)
        return (ph // 2) | self._row_expr(srow), False

    def expectation(self, pauli):
        """None if random, else the deterministic outcome expression (state unchanged)."""
        n = self.n
        anti = ((self.x[n:] @ pauli.z.astype(np.int64)) + (self.z[n:] @ pauli.x.astype(np.int64))) & 1
        if anti.any():
            return None
        return self.measure(pauli)[0]

    def measure_z(self, q):
        return self.measure(Pauli(self.n, [(q, "Z")]))[0]

    def reset(self, q):
        m = self.measure_z(q)
        self.pauli1(q, "X", m)

    def copy(self):
        t = Tableau.__new__(Tableau)
        t.n, t.nsym, t.coins = self.n, self.nsym, self.coins
        t.x, t.z, t.ph, t.s = self.x.copy(), self.z.copy(), self.ph.copy(), self.s.copy()
        return t

    def canonical(self):
        """Canonical form of the stabilizer group: reduced row echelon rows (x|z) with sign
        expressions.  Equal states (as functions of the symbols) have equal canonical forms."""
        t = self.copy()
        n = t.n
        r = n
        for kind in ("x", "z"):
            for q in range(n):
                col = (t.x if kind == "x" else t.z)[:, q]
                cand = np.flatnonzero(col[r:])
                if kind == "z":
                    # rows from r on have zero x part once the x pass is complete
                    pass
                if not len(cand):
                    continue
                p = r + int(cand[0])
                if p != r:
                    for a in (t.x, t.z, t.s):
                        a[[r, p]] = a[[p, r]]
                    t.ph[[r, p]] = t.ph[[p, r]]
                col = (t.x if kind == "x" else t.z)[:, q]
                rows = np.flatnonzero(col[n:]) + n
                rows = rows[rows != r]
                if len(rows):
                    t._mul_into(rows, r)
                r += 1
        out = []
        for i in range(n, 2 * n):
            ph = int(t.ph[i] - (t.x[i] & t.z[i]).sum()) % 4  # relative to Hermitian Y form
            assert ph % 2 == 0
            out.append(
                (
                    int("".join(map(str, t.x[i])) or "0", 2),
                    int("".join(map(str, t.z[i])) or "0", 2),
                    (ph // 2) | t._row_expr(t.s[i]),
                )
            )
        return tuple(out)


def parity(v):
    return bin(v).count("1") & 1


def evaluate(expr, assignment):
    """assignment: int with bit k+1 = value of symbol k (bit 0 must be 1)."""
    return parity(expr & (assignment | 1))


def independent(exprs):
    """Are the linear parts of the expressions independent over GF(2)? (jointly uniform)"""
    basis = {}
    for e in exprs:
        v = e >> 1
        while v:
            h = v.bit_length()
            if h in basis:
                v ^= basis[h]
            else:
                basis[h] = v
                break
        if not v:
            return False
    return True


NOOPS = {"barrier", "id", "delay", "snapshot", "save_state"}


class Machine:
    """Runs qiskit circuits on a Tableau, incrementally (so several calls may append to a circuit
    between runs and only the new part is executed)."""

    def __init__(self, circ, extra=0, coins=None):
        self.circ = circ
        self.extra = extra
        self.pos = 0
        self.qmap = {}
        self.tab = None
        self.coins = coins
        self.cvals = {}
        self.counts = {}
        self.on_id = None

    # qubits may be added later to the circuit: grow the tableau
    def _sync(self):
        qs = self.circ.qubits
        if self.tab is None:
            self.tab = Tableau(self.extra + len(qs), self.coins)
        elif self.extra + len(qs) > self.tab.n:
            grow(self.tab, self.extra + len(qs))
        for i, q in enumerate(qs):
            if q not in self.qmap:
                self.qmap[q] = self.extra + i

    def q(self, qubit):
        return self.qmap[qubit]

    def run(self, upto=None):
        self._sync()
        data = self.circ.data
        end = len(data) if upto is None else upto
        while self.pos < end:
            inst = data[self.pos]
            self._step(inst.operation, list(inst.qubits), list(inst.clbits))
            self.pos += 1
        return self

    def _cond_expr(self, condition):
        tgt, val = condition
        bits = list(tgt) if hasattr(tgt, "size") or hasattr(tgt, "__len__") else [tgt]
        val = int(val)
        factors = []
        for k, b in enumerate(bits):
            e = self.cvals.get(b, 0)
            factors.append(e if (val >> k) & 1 else e ^ 1)
        if val >> len(bits):
            return 0
        sym = set()
        for f in factors:
            if f == 0:
                return 0
            if f != 1:
                sym.add(f)
        if not sym:
            return 1
        if len(sym) == 1:
            return sym.pop()
        for f in sym:
            if f ^ 1 in sym:
                return 0
        raise SimUnsupported("condition is not affine in the coins")

    def _step(self, op, qubits, clbits, depth=0):
        name = op.name
        self.counts[name] = self.counts.get(name, 0) + 1
        cond = getattr(op, "condition", None)
        if name == "if_else":
            e = self._cond_expr(cond)
            blocks = op.blocks
            if e in (0, 1):
                blk = blocks[0] if e else (blocks[1] if len(blocks) > 1 else None)
                if blk is not None:
                    self._inline(blk, qubits, clbits, 1, depth)
            else:
                self._inline(blocks[0], qubits, clbits, e, depth)
                if len(blocks) > 1 and blocks[1] is not None:
                    self._inline(blocks[1], qubits, clbits, e ^ 1, depth)
            return
        expr = 1 if cond is None else self._cond_expr(cond)
        self._apply(op, name, [self.qmap[q] for q in qubits], clbits, expr, depth, qubits)

    def _inline(self, block, qubits, clbits, expr, depth):
        qm = dict(zip(block.qubits, qubits))
        cm = dict(zip(block.clbits, clbits))
        for inst in block.data:
            qq = [qm[q] for q in inst.qubits]
            cc = [cm[c] for c in inst.clbits]
            self._apply(
                inst.operation, inst.operation.name, [self.qmap[q] for q in qq], cc, expr, depth + 1, qq
            )

    def _apply(self, op, name, q, clbits, expr, depth, qubits):
        t = self.tab
        if name in NOOPS:
            if name == "id" and self.on_id is not None and expr:
                self.on_id(self, q[0], qubits[0])
            return
        if expr == 0:
            return
        if name in ("x", "y", "z"):
            t.pauli1(q[0], name.upper(), expr)
            return
        if expr != 1:
            # only Paulis may be conditioned on unknown coins
            d = op.definition if depth < 8 else None
            if d is None:
                raise SimUnsupported("conditioned " + name)
            self._inline(d, qubits, clbits, expr, depth)
            return
        if name == "h":
            t.h(q[0])
        elif name == "s":
            t.s_gate(q[0])
        elif name == "sdg":
            t.sdg(q[0])
        elif name == "cx":
            t.cx(q[0], q[1])
        elif name == "cz":
            t.cz(q[0], q[1])
        elif name == "cy":
            t.sdg(q[1])
            t.cx(q[0], q[1])
            t.s_gate(q[1])
        elif name == "swap":
            t.swap(q[0], q[1])
        elif name == "reset":
            t.reset(q[0])
        elif name == "measure":
            self.cvals[clbits[0]] = t.measure_z(q[0])
        elif name == "sx":
            t.h(q[0])
            t.s_gate(q[0])
            t.h(q[0])
        elif name == "sxdg":
            t.h(q[0])
            t.sdg(q[0])
            t.h(q[0])
        else:
            d = getattr(op, "definition", None)
            if d is None or depth > 8:
                raise SimUnsupported("instruction " + name)
            self._inline(d, qubits, clbits, 1, depth)

    # -- results ----------------------------------------------------------------------------
    def creg(self, reg):
        """Expressions of a classical register, bit 0 first."""
        return [self.cvals.get(b, 0) for b in reg]

    def record_exprs(self):
        """The record in qiskit order: list (last register first) of lists (last bit first)."""
        return [[self.cvals.get(b, 0) for b in reversed(list(r))] for r in reversed(self.circ.cregs)]

    def string(self, assignment=1):
        return " ".join(
            "".join(str(evaluate(e, assignment)) for e in reg) for reg in self.record_exprs()
        )


def grow(tab, n2):
    n = tab.n
    k = n2 - n
    x = np.zeros((2 * n2, n2), dtype=np.uint8)
    z = np.zeros((2 * n2, n2), dtype=np.uint8)
    s = np.zeros((2 * n2, tab.s.shape[1]), dtype=np.uint8)
    ph = np.zeros(2 * n2, dtype=np.int64)
    x[:n, :n], z[:n, :n], s[:n], ph[:n] = tab.x[:n], tab.z[:n], tab.s[:n], tab.ph[:n]
    x[n2 : n2 + n, :n], z[n2 : n2 + n, :n] = tab.x[n:], tab.z[n:]
    s[n2 : n2 + n], ph[n2 : n2 + n] = tab.s[n:], tab.ph[n:]
    for i in range(k):
        x[n + i, n + i] = 1
        z[n2 + n + i, n + i] = 1
    tab.n, tab.x, tab.z, tab.s, tab.ph = n2, x, z, s, ph
