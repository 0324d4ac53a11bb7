#!/usr/bin/env python
"""Cross-check of qv.sim against Aer: random programs of library calls and physical Clifford gates.  Every
sampled record must lie in the affine space the symbolic run predicts, and the samples must span all of it.

usage: /opt/venv/bin/python tools/selftest.py [programs] [seed]"""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from qv import env  # noqa: E402,F401
from qiskit import QuantumCircuit, transpile  # noqa: E402
from qiskit_aer import AerSimulator  # noqa: E402
from qtcodes import TopologicalCircuit, TopologicalRegister  # noqa: E402
from qv import lib, model  # noqa: E402
from qv.sim import Machine  # noqa: E402


def rank(rows):
    basis = {}
    for v in rows:
        while v:
            h = v.bit_length()
            if h not in basis:
                basis[h] = v
                break
            v ^= basis[h]
    return len(basis)


def program(rnd):
    n = rnd.choice([1, 1, 2])
    dims = [d for d in lib.dims2(5, 15)]
    specs = []
    for _ in range(n):
        code = rnd.choice(lib.CODES)
        d = rnd.choice([x for x in dims if (1 in x) == (code == "Repetition") or code != "Repetition"])
        specs.append({"code": code, "d": list(d)})
    treg = TopologicalRegister(ctypes=[s["code"] for s in specs], params=[lib.params_of(s) for s in specs])
    tc = TopologicalCircuit(treg)
    for _ in range(rnd.randint(3, 14)):
        i = rnd.randrange(n)
        op = rnd.choice(["reset_x", "reset_z", "x", "z", "stabilize", "stabilize", "id", "measure_x", "measure_z", "measure_lattice_x",
                         "measure_lattice_z", "cx", "phys", "phys", "c_if"])
        if op == "cx":
            if n == 2:
                tc.cx(i, 1 - i)
        elif op == "phys":
            q = rnd.sample(tc.circ.qubits, 2)
            for _ in range(3):
                g = rnd.choice(["h", "s", "sdg", "x", "y", "z", "cx", "cz", "swap", "sx"])
                getattr(tc.circ, g)(*(q if g in ("cx", "cz", "swap") else [rnd.choice(q)]))
        elif op == "c_if":
            one = [r for r in tc.circ.cregs if r.size == 1]
            if one:
                getattr(treg[i], rnd.choice(["x_c_if", "z_c_if"]))(rnd.choice(one), rnd.randint(0, 1))
        else:
            getattr(tc, op)(i)
    return tc.circ


def main():
    count = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    rnd = random.Random(seed)
    sim = AerSimulator(method="stabilizer")
    done = 0
    for k in range(count):
        circ = program(rnd)
        if not circ.cregs:
            continue
        m = Machine(circ).run()
        exprs = [e for r in m.record_exprs() for e in r]  # printed order
        shots = len(exprs) + 60
        mem = sim.run(transpile(circ, sim, optimization_level=0), shots=shots, memory=True, seed_simulator=rnd.randrange(1 << 30)).result().get_memory()
        rows = [[int(c) for c in s.replace(" ", "")] for s in mem]
        nsym = m.tab.nsym
        # solve for the coins by elimination: each record bit is a fresh coin or fixed by earlier ones
        sig = lib.signature(exprs)
        for row in rows:
            for v, s in zip(row, sig):
                if s != "fresh":
                    c, idx = s
                    want = c
                    for j in idx:
                        want ^= row[j]
                    assert v == want, "program %d: Aer record %s violates %s" % (k, row, s)
        fresh = [j for j, s in enumerate(sig) if s == "fresh"]
        vecs = [sum(r[j] << (t + 1) for t, j in enumerate(fresh)) | 1 for r in rows]
        assert rank(vecs) == len(fresh) + 1, "program %d: Aer samples span %d of %d random bits" % (k, rank(vecs) - 1, len(fresh))
        done += 1
    print("selftest: %d programs agree with Aer" % done)


main()
