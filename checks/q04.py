"""Q04: several filters return the intersection, whatever the indexes used."""
TECHNIQUE = 'TLA+ model of the join of index iterators; answers of the real server validated by TLC'
NOTE = 'Join models the merge of several index iterators and is exhausted for all lists, with refuted variants; all triples of record subsets on three index kinds, and longer random ones, are asked to rodb and validated.'
import itertools
from gen import *

KINDS = ["default", "m", "s", "w", "m2", "s2", "f"]


def world(n, sets, kinds):
    """One column per subset of the n records; every index kind over all of them."""
    w = World()
    cols = ["c%d" % k for k in range(len(sets))]
    rows = [[str(i + 1)] + ["y" if i in s else "n" for s in sets] for i in range(n)]
    rng = random.Random(n * 1000 + len(sets))
    for i, r in enumerate(rows):   # texts of different relevance for the same words
        r.append(" ".join([rng.choice(["y", "n", "z"])] * rng.choice([1, 1, 2, 4]) + ["w%d" % rng.randrange(30) for _ in range(rng.choice([0, 3, 20]))] + rng.sample(["y", "n", "z"], rng.randrange(3))))
    w.csv("i", [("id", "integer")] + [(x, "string") for x in cols + ["txt"]], rows)
    w.index("m", "map", "i", cols)
    w.index("m2", "map", "i", cols)
    w.index("s", "sqlite", "i", cols)
    w.index("s2", "sqlite", "i", cols, dsn=":memory:", collate={cols[0]: "nocase"})
    w.index("w", "wildcard", "i", cols)
    ps = {"%s_%s" % (x, k): (x, k, "string") for x in cols for k in kinds if k != "f"}
    if "f" in kinds:
        w.index("f", "fts5", "i", cols + ["txt"])
        ps["fts"] = ("match", "f", "string")
    w.route(w.output("o", "array", "i", ps, ldef=1000))
    return w


def twice(c):
    """Known finding: two parameters of one output on the same property of the same index."""
    w = World()
    w.csv("i", [("id", "integer"), ("x", "string")], [["1", "a"], ["2", "b"]])
    w.index("m", "map", "i", ["x"])
    w.route(w.output("o", "array", "i", {"p": ("x", "m", "string"), "q": ("x", "m", "string")}))
    if c.boot(w, key="same-property-twice"):
        with w.server:
            wl = c.use_world(w)
            c.ask_all(w, wl, [Req("/o", [("p", "a")]), Req("/o", [("q", "b")])])
            c.ask_all(w, wl, [Req("/o", [("p", "a"), ("q", "b")])], key="same-property-twice")


def run(c):
    good = {"MaxPos": "4", "Lists": "3", "ExtraCalls": "2", "StopAtEqual": "TRUE", "NeedAll": "TRUE"}
    c.design("Join", good, [{"StopAtEqual": "FALSE"}, {"NeedAll": "FALSE"}], {"MaxPos": "3"})
    if THOROUGH:
        c.model("Join", constants={**good, "MaxPos": "5"}, timeout=800)
        c.model("Join", constants={**good, "MaxPos": "3", "Lists": "4"}, timeout=800)
    rng = c.rng
    plans = []
    # every triple of subsets, on three different indexes
    n = 4 if THOROUGH else 3
    sets = [set(i for i in range(n) if k >> i & 1) for k in range(1 << n)]
    for trio in ([("default", "m", "s"), ("w", "m", "s2")] if not THOROUGH else [("default", "m", "s"), ("w", "m", "s2"), ("default", "w", "m2")]):
        w = world(n, sets, trio)
        plans.append((w, [Req("/o", [("c%d_%s" % (x, k), "y") for x, k in zip(t, trio)]) for t in itertools.product(range(len(sets)), repeat=3)]))
    # longer lists, more filters, several filters on one index
    for n, m, nr in [(9, 24, 350), (30, 16, 250)] + ([(60, 16, 900), (9, 40, 1500), (200, 10, 300)] if THOROUGH else []):
        sets = []
        for _ in range(m):
            d = rng.choice([0.1, 0.5, 0.8, 1.0])
            s = set(i for i in range(n) if rng.random() < d)
            if sets and rng.random() < 0.4:
                s = rng.choice(sets) ^ set(rng.sample(range(n), 2))
            sets.append(s)
        w = world(n, sets, KINDS)
        reqs = [Req("/o")]
        for _ in range(nr):
            k = rng.choice([1, 2, 2, 3, 4, 5, 6])
            names = rng.sample(["c%d_%s" % (x, kd) for x in range(m) for kd in KINDS if kd != "f"], k)
            pairs = [(nm, rng.choice("yyyyn")) for nm in names]
            if rng.random() < 0.2:   # many filters on one index, given by the values of a record, or almost
                one, kd = rng.randrange(n), rng.choice([kd for kd in KINDS if kd != "f"])
                pairs = [("c%d_%s" % (x, kd), "y" if one in sets[x] else "n") for x in rng.sample(range(m), rng.randint(4, 9))]
                if rng.random() < 0.5:
                    j = rng.randrange(len(pairs))
                    pairs[j] = (pairs[j][0], "yn"[pairs[j][1] == "y"])
            fts = {}
            if rng.random() < 0.4:
                fts["fts"] = rng.choice([("c", "c%d" % rng.randrange(m), ("t", codes(rng.choice("yn")))), ("c", "txt", ("t", codes(rng.choice("ynz")))),
                                         ("t", codes("z")), ("or", ("t", codes("z")), ("c", "txt", ("t", codes("n"))))])
            reqs.append(Req("/o", pairs, fts=fts))
        plans.append((w, reqs))
    twice(c)
    for w, reqs in plans:
        if not c.boot(w):
            continue
        with w.server:
            wl = c.use_world(w)
            c.ask_all(w, wl, reqs, threads=3)
        c.validate()
    c.cov["all_triples_of_subsets_of"] = 4 if THOROUGH else 3
