"""C23: the logical error rate."""
import contextlib
import io
import random
from fractions import Fraction

from hypothesis import strategies as st
from qiskit import QuantumCircuit
from qtcodes import RepetitionDecoder, RotatedDecoder, TopologicalBenchmark

from qv import lib, model
from qv.core import Part, require

ID = "C23"
RULE = (
    "Case = decoder, expected value, error probability or none, and a dictionary of 1-12 readouts (logical or full-lattice) "
    "with counts; compared with the exact fraction from decoding each readout, with reordered, merged and split "
    "dictionaries, with the opposite expected value, and asked again with other error probabilities. Non-trivial = at least one wrongly and one correctly decoded readout."
)
ASSUMPTIONS = ["decoding itself is decided by C10-C14; here only uniquely decodable readouts are also compared with the reference matching"]


@st.composite
def cases(draw, tier):
    big = tier == "thorough"
    spec = draw(lib.decoder_specs(5 if not big else 7, 25 if not big else 49).filter(lambda s: s["d"][0] > 1))
    T = draw(st.sampled_from([1, 2, 2, 3, 3, 5, 11]))
    h, w = lib.dims(spec)
    m = sum(lib.nsyn(spec))
    rows = []
    for _ in range(draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 12), st.integers(20, 60)))):
        final = draw(st.sampled_from(["readout", "lattice"]))
        nf = 1 if final == "readout" else h * w
        nr = T + 1 if final == "readout" else T
        # mostly quiet: a few changed bits, so that decoding is usually unique
        bits = [0] * (nf + nr * m)
        for i in draw(st.lists(st.integers(0, len(bits) - 1), max_size=5)):
            bits[i] ^= 1
        if draw(st.integers(0, 5)) == 0:
            bits = [draw(st.integers(0, 1)) for _ in bits] if len(bits) < 60 else bits
        rounds = [bits[nf + k * m: nf + (k + 1) * m] for k in range(nr)]
        rows.append([lib.readout_string(rounds, bits[:nf]), draw(st.one_of(st.integers(1, 5), st.integers(1, 10000), st.integers(1, 10 ** 9)))])
    # the same readout may only occur once in a dictionary
    rows = [list(x) for x in dict((a, b) for a, b in rows).items()]
    return {"spec": spec, "T": T, "rows": rows, "expect": draw(st.integers(0, 1)), "p": draw(st.sampled_from([None, 0.02, 0.1, 0.3])),
            "again": draw(st.lists(st.tuples(st.sampled_from([None, 0.02, 0.1, 0.3]), st.integers(0, len(rows)), st.booleans()).map(list), max_size=3)),
            "perm": draw(st.permutations(list(range(len(rows))))), "cut": draw(st.integers(0, len(rows)))}


@st.composite
def big_cases(draw, tier):
    """As many different readouts as a run of thousands of shots gives."""
    spec = draw(lib.decoder_specs(5, 15).filter(lambda s: s["d"][0] > 1))
    return {"spec": spec, "T": draw(st.sampled_from([1, 2, 3])), "seed": draw(st.integers(0, 2 ** 32 - 1)),
            "n": draw(st.sampled_from([100, 300, 700, 1500])), "ones": draw(st.booleans()),
            "expect": draw(st.integers(0, 1)), "p": draw(st.sampled_from([None, None, 0.1]))}


def check_big(case):
    spec, T, rng = case["spec"], case["T"], random.Random(case["seed"])
    h, w = lib.dims(spec)
    m = sum(lib.nsyn(spec))
    rows = {}
    for _ in range(case["n"]):
        nf = h * w if rng.random() < 0.3 else 1
        nr = T + 1 if nf == 1 else T
        rounds = [[int(rng.random() < 0.1) for _ in range(m)] for _ in range(nr)]
        rows[lib.readout_string(rounds, [rng.getrandbits(1) for _ in range(nf)])] = 1 if case["ones"] else rng.choice([1, 1, 2, 5, 40, 1000])
    kw = {} if case["p"] is None else {"err_prob": case["p"]}
    dec = lib.make_decoder(spec, T)
    wrong = sum(n for s, n in rows.items() if dec.correct_readout(s, "Z", **kw) != case["expect"])
    rate = TopologicalBenchmark(lib.make_decoder(spec, T), QuantumCircuit(), correct_logical_value=case["expect"]).logical_error_rate(dict(rows), **kw)
    want = Fraction(wrong, sum(rows.values()))
    require(abs(float(rate) - float(want)) < 1e-9, "rate %s of %d readouts, %s of the shots decode wrongly", rate, len(rows), want)
    return 0 < want < 1 and len(rows) > 50, [spec["code"], "rows=%d" % (len(rows) // 100 * 100)]


def check(case):
    spec, T, p = case["spec"], case["T"], case["p"]
    rows = case["rows"]
    mk = lambda: lib.make_decoder(spec, T)
    kw = {} if p is None else {"err_prob": p}
    oracle = mk()
    vals = {s: oracle.correct_readout(s, "Z", **kw) for s, _ in rows}
    for s, _ in rows:
        v, hits = oracle.parse_readout(s, "Z")
        if len(hits["Z"]) <= 6:
            c = lib.class_costs(spec, T, "Z", hits["Z"], p)
            if abs(c[0] - c[1]) > 1e-2:
                require(vals[s] == v ^ int(c[1] < c[0]), "%r decodes to %s", s, vals[s])

    def bench(expect):
        if expect == 0:
            return TopologicalBenchmark(mk(), QuantumCircuit())
        return TopologicalBenchmark(mk(), QuantumCircuit(), correct_logical_value=expect)

    def exact(rws, expect):
        tot = sum(n for _, n in rws)
        return Fraction(sum(n for s, n in rws if vals[s] != expect), tot), tot

    e = case["expect"]
    b = bench(e)
    given = dict((s, n) for s, n in rows)
    keep = dict(given)
    rate = b.logical_error_rate(given, **kw)
    want, tot = exact(rows, e)
    close = lambda a, f: abs(float(a) - float(f)) < 1e-9
    require(0 <= rate <= 1, "rate %s is not in [0, 1]", rate)
    require(close(rate, want), "rate %s, %s of the shots decode wrongly", rate, want)
    require(given == keep and list(given) == list(keep), "the counts dictionary was changed")
    require(close(b.logical_error_rate(given, **kw), want), "a second evaluation gives another rate")
    perm = dict(tuple(rows[i]) for i in case["perm"])
    require(close(b.logical_error_rate(perm, **kw), want), "the rate depends on the order of the counts")
    opp = bench(1 - e).logical_error_rate(given, **kw)
    require(close(opp, 1 - want), "rates for opposite expected values are %s and %s", rate, opp)
    k = case["cut"]
    if 0 < k < len(rows):
        (r1, n1), (r2, n2) = exact(rows[:k], e), exact(rows[k:], e)
        g1, g2 = b.logical_error_rate(dict(map(tuple, rows[:k])), **kw), b.logical_error_rate(dict(map(tuple, rows[k:])), **kw)
        require(close(g1, r1) and close(g2, r2), "rates of the two halves are %s and %s, expected %s and %s", g1, g2, r1, r2)
        require(close((g1 * n1 + g2 * n2) / (n1 + n2), want), "the rate is not the shot-weighted mean of its parts")
    # the same benchmark, asked again with other error probabilities and other counts
    for p2, k, same in case["again"]:
        kw2 = {} if p2 is None else {"err_prob": p2}
        part = rows[k:] + rows[:k] if same else rows[k:] or rows
        fresh = mk()
        n = sum(n for _, n in part)
        w2 = Fraction(sum(n for s, n in part if fresh.correct_readout(s, "Z", **kw2) != e), n)
        got = b.logical_error_rate(dict(map(tuple, part)), **kw2)
        require(close(got, w2), "asked again with error probability %s the rate is %s, %s of the shots decode wrongly", p2, got, w2)
    scaled = {s: 3 * n for s, n in rows}
    require(close(b.logical_error_rate(scaled, **kw), want), "the rate depends on the total number of shots")
    wrong = sum(1 for s, _ in rows if vals[s] != e)
    return 0 < wrong < len(rows), [spec["code"], "p" if p else "plain", "rows=%d" % min(len(rows), 6)]


PARTS = [Part("counts", lambda tier: cases(tier), check, 2000, 16000),
         Part("big", lambda tier: big_cases(tier), check_big, 64, 800)]
