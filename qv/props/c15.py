"""C15: look-up decoding is Bayes' rule."""
import copy
from fractions import Fraction

from hypothesis import strategies as st
from qtcodes import RotatedDecoder, RepetitionDecoder

from qv.core import Part, require

ID = "C15"
RULE = (
    "Case = sequence of set-table, reset and decode calls on two decoders with arbitrary count tables and priors, replayed against a "
    "dictionary model in exact fractions. Non-trivial = a decode of a string that both tables contain with different totals."
)
MANY = ["1 " + format(i, "08b") + " 00000000" for i in range(60)]
WORDS = ["0 00 00", "1 00 00", "0 01 00", "1 11 10", "101 00 01", "000 11 11", "0 00000000 00000000", "1 10100000 10010000"]


@st.composite
def cases(draw, tier):
    words = draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=5, unique=True))
    count = st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 5000), st.integers(1, 10 ** 9))
    big = draw(st.integers(0, 4)) == 0
    if big:
        words = words[:2] + MANY
    table = st.dictionaries(st.sampled_from(words), count, min_size=20 if big else 0, max_size=60 if big else 5)
    typ, val = st.sampled_from("XZ"), st.integers(0, 1)
    op = st.one_of(
        st.tuples(st.just("set"), typ, val, table),
        st.tuples(st.just("set"), typ, val, table),
        st.tuples(st.just("reset")),
        st.tuples(st.just("get"), typ, st.sampled_from(words), st.one_of(st.none(), st.integers(0, 16))),
        st.tuples(st.just("get"), typ, st.sampled_from(words), st.one_of(st.none(), st.integers(0, 16))),
        st.tuples(st.just("get"), typ, st.sampled_from(words), st.none()),
    ).map(list)
    t0 = draw(typ)
    return {"ops": [["set", t0, 0, draw(table)], ["set", t0, 1, draw(table)], ["get", t0, words[0], None]]
            + draw(st.lists(op, min_size=20 if big else 2, max_size=30 if big else 12)),
            "who": draw(st.lists(st.integers(0, 1), min_size=3, max_size=15)), "after": draw(st.sampled_from(["keep", "clear", "more", "more"])),
            "kind": draw(st.sampled_from(["Rotated", "Repetition"]))}


def check(case):
    decs = [RotatedDecoder({"d": 3, "T": 1}) if case["kind"] == "Rotated" else RepetitionDecoder({"d": 3, "T": 1}) for _ in range(2)]
    empty = {t: {0: {}, 1: {}} for t in "XZ"}
    models = [copy.deepcopy(empty) for _ in decs]
    for dec in decs:
        require(dec.look_up_table == empty, "tables of a new decoder are not empty: %s", dec.look_up_table)
    nontrivial = False
    for step, op in enumerate(case["ops"]):
        who = 0 if step < 3 else case["who"][step % len(case["who"])]
        dec, model = decs[who], models[who]
        if op[0] == "set":
            mine = dict(op[3])
            dec.set_look_up_table(op[1], op[2], mine)
            require(mine == op[3], "setting a table changed the given counts")
            model[op[1]][op[2]] = dict(op[3])
            # the caller goes on counting in its own dictionary
            if case["after"] == "clear":
                mine.clear()
            elif case["after"] == "more":
                for w in WORDS[:3]:
                    mine[w] = mine.get(w, 0) + 7
        elif op[0] == "reset":
            dec.reset_look_up_table()
            model = models[who] = copy.deepcopy(empty)
        else:
            _, t, s, prior = op
            tot = [sum(model[t][i].values()) for i in (0, 1)]
            lik = [Fraction(model[t][i].get(s, 0), tot[i]) if tot[i] else Fraction(0) for i in (0, 1)]
            pri = [Fraction(1, 2)] * 2 if prior is None else [Fraction(prior, 16), Fraction(16 - prior, 16)]
            ps = sum(l * p for l, p in zip(lik, pri))
            if ps != 0:
                want = [l * p / ps for l, p in zip(lik, pri)]
                look = getattr(dec, "_run_look_up", None)  # only the tutorials document it
                got = want if look is None else look(s, t, [float(p) for p in pri]) if prior is not None else look(s, t)
                require(len(got) == 2 and all(abs(g - float(x)) < 1e-9 for g, x in zip(got, want)),
                        "call %d: posterior of %r is %s, expected %s", step, s, got, [float(x) for x in want])
                nontrivial = nontrivial or (all(lik) and tot[0] != tot[1])
            if sum(lik) != 0:
                v = dec.correct_readout_look_up_table(s, t)
                require(v in (0, 1), "call %d: value %r", step, v)
                if lik[0] != lik[1] and abs(float(lik[0] - lik[1])) > 1e-12:
                    require(v == (0 if lik[0] > lik[1] else 1), "call %d: %r decodes to %s, likelihoods %s", step, s, v, [float(x) for x in lik])
        for d, m in zip(decs, models):
            got = {t: {i: dict(d.look_up_table[t][i]) for i in (0, 1)} for t in "XZ"}
            require(got == m, "call %d %s on decoder %d: tables of %s are %s, expected %s", step, op, who, "it" if d is dec else "the other", got, m)
    return nontrivial, ["ops=%d" % len(case["ops"]), case["kind"]]


PARTS = [Part("tables", lambda tier: cases(tier), check, 8000, 80000)]
