"""C14: decoding is pure."""
import copy
import pickle
import random

from hypothesis import strategies as st

from qv import lib, model
from qv.core import Part, require

ID = "C14"
RULE = (
    "Case = decoder and a sequence of 2-6 decode requests (string or parsed, either basis, with or without error probability, "
    "arbitrary syndrome bits), decoded repeatedly and in several orders on one decoder, on fresh ones, on copies, and in a process "
    "of its own alone and after other decoders. "
    "Non-trivial = at least two requests with three or more hits."
)


@st.composite
def cases(draw, tier):
    spec = draw(lib.decoder_specs(5 if tier == "quick" else 7, 35))
    T = draw(st.integers(1, 4))
    nx, nz = lib.nsyn(spec)
    n = nx + nz
    bit = st.integers(0, (1 << n) - 1)
    sparse = st.sets(st.integers(0, n - 1), max_size=2).map(lambda s: sum(1 << k for k in s))
    req = []
    for _ in range(draw(st.integers(2, 6))):
        if req and draw(st.integers(0, 3)) == 0:
            # an earlier request again, read in the other basis or with other settings
            again = dict(draw(st.sampled_from(req)))
            if draw(st.booleans()):
                again["basis"] = draw(st.sampled_from(lib.bases(spec)))
            if draw(st.booleans()):
                again["p"] = draw(st.sampled_from([None, 0.02, 0.1, 0.3]))
            if draw(st.booleans()):
                again["final"] ^= 1
            req.append(again)
            continue
        lattice = draw(st.integers(0, 2)) == 0
        req.append({
            "rounds": [draw(st.one_of(sparse, bit)) for _ in range(T if lattice else T + 1)],
            "final": draw(st.integers(0, (1 << lib.ndata(spec)) - 1)) if lattice else draw(st.integers(0, 1)),
            "lattice": lattice,
            "basis": draw(st.sampled_from(lib.bases(spec))),
            "p": draw(st.sampled_from([None, None, 0.02, 0.1, 0.3])),
            "form": draw(st.sampled_from(["string", "parsed"])),
        })
    return {"spec": spec, "T": T, "req": req, "frame": draw(bit),
            "nonsense": draw(st.lists(st.sampled_from(["hit", "late", "basis", "text", "empty", "missing"]), max_size=6)),
            "clone": draw(st.sampled_from([None, None, "pickle", "deepcopy"])),
            "order": draw(st.lists(st.integers(0, 6), max_size=8)),
            "mix": draw(st.lists(st.tuples(st.integers(0, 5), st.sampled_from(["string", "parsed", "string", "parsed", "parse", "table"])).map(list),
                                 min_size=draw(st.sampled_from([0, 6])), max_size=16))}


def text_of(spec, r, frame=0):
    nx, nz = lib.nsyn(spec)
    n = nx + nz
    bits = lambda v, k: [(v >> j) & 1 for j in range(k)]
    return lib.readout_string([bits(v ^ frame, n) for v in r["rounds"]],
                              bits(r["final"], lib.ndata(spec) if r["lattice"] else 1))


def decode(dec, spec, r, flip=0, drop_other=False, frame=0, parser=None):
    kw = {} if r["p"] is None else {"err_prob": r["p"]}
    text = text_of(spec, r, frame)
    if r["form"] == "string" and not flip and not drop_other:
        return dec.correct_readout(text, r["basis"], **kw)
    v, hits = (parser or dec).parse_readout(text, r["basis"])
    if drop_other:
        o = "Z" if r["basis"] == "X" else "X"
        hits = dict(hits)
        hits[o] = []
    mine = copy.deepcopy(hits)
    out = dec.correct_readout(hits, r["basis"], v ^ flip, **kw)
    require(mine == hits, "decoding changed the syndromes it was given: %s became %s", mine, hits)
    return out


def state(dec):
    return (
        {k: (list(map(tuple, g.nodes())), sorted((min(e), max(e)) for e in g.edge_list()), list(g.edges())) for k, g in dec.S.items()},
        copy.deepcopy(dec.node_map), copy.deepcopy(dec.virtual), copy.deepcopy(dec.look_up_table),
        {k: v for k, v in dec.params.items() if k in ("d", "T")},
    )


def check(case):
    spec, T = case["spec"], case["T"]
    used = lib.make_decoder(spec, T)
    before = state(used)
    fresh = [decode(lib.make_decoder(spec, T), spec, r) for r in case["req"]]
    busy = 0
    for k in list(range(len(case["req"]))) + case["order"] + [0]:
        r = case["req"][k % len(case["req"])]
        got = decode(used, spec, r)
        require(got == fresh[k % len(case["req"])], "request %d decodes to %s on a used decoder, %s on a fresh one", k, got, fresh[k % len(case["req"])])
    for r, v in zip(case["req"], fresh):
        require(v in (0, 1), "decoded value %r", v)
        other = dict(r, form="parsed" if r["form"] == "string" else "string")
        got = decode(used, spec, other)
        require(got == v, "%s decodes to %s, as %s to %s", r["form"], v, other["form"], got)
        got = decode(used, spec, r, flip=1)
        require(got == 1 - v, "flipping the measured value does not flip the result (%s, %s)", v, got)
        got = decode(used, spec, r, drop_other=True)
        require(got == v, "dropping hits of the other type changes %s to %s", v, got)
        if not r["lattice"]:
            got = decode(used, spec, r, frame=case["frame"])
            require(got == v, "another quiescent state changes %s to %s", v, got)
        _, hits = used.parse_readout(text_of(spec, r), r["basis"])
        busy += len(hits[r["basis"]]) >= 3
    box = {"X": [], "Z": []}  # the caller's own, filled anew for each request; some requests in between make no sense
    for k, (r, v) in enumerate(zip(case["req"], fresh)):
        value, hits = used.parse_readout(text_of(spec, r), r["basis"])
        box["X"][:], box["Z"][:] = hits["X"], hits["Z"]
        kw = {} if r["p"] is None else {"err_prob": r["p"]}
        got = used.correct_readout(box, r["basis"], value, **kw)
        require(got == v, "the same lists filled with the hits of request %d decode to %s, not %s", k, got, v)
        for how in case["nonsense"][k: k + 1]:
            bad = {"hit": ({"X": [(0.0, 0.25, 0.5)], "Z": [(0.0, 0.25, 0.5)]}, r["basis"], 0), "late": ({"X": [(T + 3.0, 0.5, 0.5)], "Z": [(T + 3.0, 0.5, 0.5)]}, r["basis"], 1),
                   "basis": (box, "Y", 0), "text": ("0 x y", r["basis"]), "empty": ("", r["basis"]), "missing": ({}, r["basis"], 0)}[how]
            for _ in range(2):
                try:
                    used.correct_readout(*bad, **kw)
                except Exception:
                    pass
    for k, (r, v) in enumerate(zip(case["req"], fresh)):
        got = decode(used, spec, r)
        require(got == v, "after rejected requests, request %d decodes to %s, not %s", k, got, v)
    other = lib.make_decoder(spec, T)
    parsed = [other.parse_readout(text_of(spec, r), r["basis"]) for r in case["req"]]
    for k, (j, form) in enumerate(case.get("mix", [])):  # parsed elsewhere, so that nothing but the calls named here happens
        j %= len(case["req"])
        r, v = case["req"][j], fresh[j]
        kw = {} if r["p"] is None else {"err_prob": r["p"]}
        if form == "parse":
            got = used.parse_readout(text_of(spec, r), r["basis"])
            require((got[0], lib.norm_hits(got[1])) == (parsed[j][0], lib.norm_hits(parsed[j][1])), "call %d: request %d parses to %s, elsewhere to %s", k, j, got, parsed[j])
        elif form == "table":
            used.set_look_up_table(r["basis"], k % 2, {text_of(spec, r): 3, "0": 1})
            require(used.correct_readout_look_up_table(text_of(spec, r), r["basis"]) in (0, 1), "call %d: no look-up value", k)
            used.reset_look_up_table()
        else:
            got = used.correct_readout(text_of(spec, r), r["basis"], **kw) if form == "string" else used.correct_readout(copy.deepcopy(parsed[j][1]), r["basis"], parsed[j][0], **kw)
            require(got == v, "call %d of %s: request %d decodes to %s, on a fresh decoder to %s", k, case["mix"][:k + 1], j, got, v)
    if case.get("clone"):
        # worker processes of a sweep decode with a pickled copy
        twin = pickle.loads(pickle.dumps(used)) if case["clone"] == "pickle" else copy.deepcopy(used)
        require(state(twin) == before, "a copy (%s) of the decoder differs from it", case["clone"])
        for r, v in zip(case["req"], fresh):
            got = decode(twin, spec, r)
            require(got == v, "decodes to %s, on a copy (%s) of the decoder to %s", v, case["clone"], got)
    require(state(used) == before, "decoding changed the decoder")
    return busy >= 2, [spec["code"], "T=%d" % T, "requests=%d" % len(case["req"])]


# ---- many requests -------------------------------------------------------------------------------


@st.composite
def many_cases(draw, tier):
    spec = draw(lib.decoder_specs(5, 25))
    T = draw(st.integers(1, 3))
    return {"spec": spec, "T": T, "seed": draw(st.integers(0, 2 ** 32 - 1)), "distinct": draw(st.sampled_from([3, 10, 40, 90])),
            "n": draw(st.sampled_from([40, 120, 300])), "form": draw(st.sampled_from(["string", "parsed", "mixed", "mixed"])),
            "apart": draw(st.booleans())}


def check_many(case):
    spec, T = case["spec"], case["T"]
    rng = random.Random(case["seed"])
    nx, nz = lib.nsyn(spec)
    n = nx + nz
    pool = []
    for _ in range(case["distinct"]):
        dense = rng.random() < 0.5
        lattice = rng.random() < 0.25
        word = lambda: rng.getrandbits(n) & (rng.getrandbits(n) if dense else rng.getrandbits(n) & rng.getrandbits(n))
        pool.append({"rounds": [word() for _ in range(T if lattice else T + 1)], "lattice": lattice,
                     "final": rng.getrandbits(lib.ndata(spec) if lattice else 1), "basis": rng.choice(lib.bases(spec)),
                     "p": rng.choice([None, None, 0.02, 0.1]), "form": case["form"] if case["form"] != "mixed" else rng.choice(["string", "parsed"])})
    want = [decode(lib.make_decoder(spec, T), spec, r) for r in pool]
    used = lib.make_decoder(spec, T)
    other = lib.make_decoder(spec, T) if case.get("apart") else None  # else the same decoder parses
    busy = set()
    for k in range(case["n"]):
        i = rng.randrange(len(pool))
        got = decode(used, spec, pool[i], parser=other)
        require(got == want[i], "request %d, %s, decodes to %s, on a fresh decoder to %s", k, pool[i], got, want[i])
        busy.add(i)
    return len(busy) > 2, [spec["code"], "distinct=%d" % case["distinct"]]


# ---- the company a decoder keeps ---------------------------------------------------------------


@st.composite
def company_cases(draw, tier):
    """A decoder that decodes alone in its process, and the same one after others have been at work."""
    def one(d, T, n):
        nx, nz = lib.nsyn(d)
        out = []
        for _ in range(n):
            basis = draw(st.sampled_from(lib.bases(d)))
            key = "Z" if basis == "Z" else "X"
            if not (nx if key == "X" else nz):
                continue
            nodes = lib.hit_nodes(d, T, key)
            hits = draw(st.lists(st.integers(0, len(nodes) - 1), min_size=2, max_size=9, unique=True))
            out.append({"basis": basis, "hits": sorted(hits), "value": draw(st.integers(0, 1)), "p": draw(st.sampled_from([None, 0.05, 0.2]))})
        return {"spec": d, "T": T, "req": out}

    spec = draw(lib.decoder_specs(5 if tier == "quick" else 7, 35))
    T = draw(st.integers(1, 4))
    others = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["rounds", "turned", "code", "any", "any"]))
        o, t = dict(spec), T
        if kind == "rounds":
            t = draw(st.integers(1, 5))
        elif kind == "turned":
            o["d"] = spec["d"][::-1]
            o["scalar"] = False
        elif kind == "code" and spec["code"] != "Repetition":
            o["code"] = "XZZX" if spec["code"] == "XXZZ" else "XXZZ"
        else:
            o, t = draw(lib.decoder_specs(5, 35)), draw(st.integers(1, 4))
        others.append(one(o, t, 2))
    return {"target": one(spec, T, draw(st.integers(2, 5))), "others": others, "alive": draw(st.booleans())}


def at_work(job, dec=None):
    spec, T = job["spec"], job["T"]
    dec = dec or lib.make_decoder(spec, T)
    out = []
    for r in job["req"]:
        key = "Z" if r["basis"] == "Z" else "X"
        nodes = lib.hit_nodes(spec, T, key)
        kw = {} if r["p"] is None else {"err_prob": r["p"]}
        hits = {"X": [], "Z": []}
        hits[key] = [nodes[k] for k in r["hits"]]
        # the parsed form is what parse_readout gives: times are numbers, hits in order
        out.append(int(dec.correct_readout(hits, r["basis"], r["value"], **kw)))
    return out


def check_company(case):
    job = case["target"]

    def alone():
        return at_work(job)

    def later():
        dec = lib.make_decoder(job["spec"], job["T"]) if case["alive"] else None
        for o in case["others"]:
            at_work(o)
        return at_work(job, dec)

    # both in processes of their own: this one never decodes in this part, so neither inherits anything
    a = lib.child(alone)
    b = lib.child(later)
    require(a[0] == 0, "decoding %s fails on its own", job)
    require(b[0] == 0, "decoding %s fails after other decoders have been used", job)
    require(a[1] == b[1], "alone the requests decode to %s, after other decoders have been used to %s", a[1], b[1])
    nt = sum(len(r["hits"]) >= 3 for r in job["req"]) >= 2
    return nt, [job["spec"]["code"], "others=%d" % len(case["others"])]


PARTS = [Part("company", lambda tier: company_cases(tier), check_company, 1200, 10000),
         Part("purity", lambda tier: cases(tier), check, 2500, 25000),
         Part("many", lambda tier: many_cases(tier), check_many, 160, 2000)]
