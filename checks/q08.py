"""Q08: relationships are sorted and limited as configured."""
TECHNIQUE = 'TLA+ model of sorting then limiting, exhausted by TLC; relationships delivered by the real server validated by TLC'
NOTE = 'SortLimit (any exchange order, keys, directions, missing values, limits) exhausted with refuted variants; on rodb, all small assignments of values and missing values to two sort keys with all directions and limits, and random larger ones over csv, json and xml with nested paths, are delivered and validated (ties may come in any order).'
import itertools
from gen import *


def parent(w, kinds):
    w.csv("p", [("all", "string")], [["y"]])


def enumerated(c):
    """Every list of records over two keys with values null, 1, 2 (as many groups of one input), every direction and limit."""
    w = World()
    parent(w, None)
    vals = [None, 1, 2]
    m = 3 if THOROUGH else 2
    groups = list(itertools.product(itertools.product(vals, repeat=2), repeat=m))
    if THOROUGH:
        groups = c.rng.sample(groups, 400)
    w.csv("g", [("g", "string")], [["g%d" % i] for i in range(len(groups))])
    recs = []
    for i, g in enumerate(groups):
        for j, (a, b) in enumerate(g):
            r = {"id": len(recs) + 1, "g": "g%d" % i}
            for k, v in (("a", a), ("b", b)):
                if v is not None or c.rng.random() < 0.5:   # null or missing: the same
                    r[k] = v
            recs.append(r)
    w.json("j", recs)
    w.index("m", "map", "j", ["g"])
    reqs = []
    for n, (da, db, limit) in enumerate(itertools.product([True, False, None], [True, False], range(m + 2))):
        w.output("o%d" % n, "array", "g", rels={"r": rel("j", [("g", "g", "m")], isArray=True, limit=limit, sort=[("a", da), ("b", db)])}, ldef=1000)
        w.route("o%d" % n)
        for off in range(0, len(groups), 20):
            reqs.append(Req("/o%d" % n, [("offset", str(off)), ("limit", "20")]))
    return w, reqs


def typed(c):
    """Every kind of value with its extreme ones, each pair of neighbours in one order or the other."""
    rng = c.rng
    big = [0, 1, -1, 2, 127, 128, 255, 256, 32767, 32768, 65536, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 62, 2 ** 63 - 1, 2 ** 63 - 2, -2 ** 63, -2 ** 63 + 1, 5 * 10 ** 18, -5 * 10 ** 18]
    flt = ["0", "1.25", "1.75", "1", "2", "-0.25", "-0.5", "-1", "1e15", "-1e15", "0.001", "0.0001", "1e300", "-1e300", "3.0000001", "3"]
    txt = [t for t in STRS if t not in ("", "line1\nline2")] + ["Z", "aa", "a", "A", "b", "é", "ab", "a b", "10", "9", "x" * 300 + "1", "x" * 300 + "2", "x" * 300]
    bol = ["true", "false"]
    w = World()
    w.csv("p", [("g", "string")], [["a"], ["b"]])
    reqs = []
    for k, (kind, vals) in enumerate((("integer", [str(v) for v in big]), ("float", flt), ("string", txt), ("boolean", bol))):
        a = rng.sample(vals, len(vals))
        rows = [["a", v] for v in a] + [["b", v] for v in reversed(a)] + ([["a"], ["b"]] if k % 2 else [])
        w.csv("c%d" % k, [("id", "integer"), ("g", "string"), ("v", kind)], [[str(i)] + r for i, r in enumerate(rows)])
        w.index("m%d" % k, "map", "c%d" % k, ["g"])
        for d in (True, False):
            for limit in (0, len(a) // 2):
                n = "o%d%d%s" % (k, d, limit)
                w.route(w.output(n, "array", "p", rels={"r": rel("c%d" % k, [("g", "g", "m%d" % k)], isArray=True, sort=[("v", d)], limit=limit)}))
                reqs.append(Req("/" + n))
    return w, reqs


def random_world(c, n):
    rng = c.rng
    w = World()
    w.csv("p", [("g", "string")], [["x"], ["y"], ["z"], ["none"]])
    S = [t for t in STRS if t not in ("", "line1\nline2")] + ["Z", "aa", "é"]
    row = lambda i: [str(i + 1), rng.choice("xy"), rng.choice(S), rng.choice(INTS + [str(d * (9 - k) * 10 ** 18) for k in range(3) for d in (1, -1)]), rng.choice(FLTS + ["1.25", "1.75", "-0.5", "-0.25", "0.001"]), rng.choice(["true", "false"])]
    rows = [(lambda r: r[:rng.randint(2, 6)] if rng.random() < 0.3 else r)(row(i)) for i in range(n)]
    w.csv("c", [("id", "integer"), ("g", "string"), ("s", "string"), ("i", "integer"), ("f", "float"), ("b", "boolean")], rows)
    recs = []
    for i in range(n):
        o = lambda d: {k: rng.choice(v) for k, v in d.items() if rng.random() < 0.8}
        recs.append({"id": i + 1, "g": rng.choice("xyz"), **o({"s": S + [None], "i": [None, -3, 0, 1.5, 1.25, 1.75, -0.5, -0.25, 2, 10, 100, 1e15, -1e15, 1e-9, 123456.789], "b": [True, False, None]}),
                     "o": rng.choice([None, o({"s": S, "i": [1, 2, 3]})]), "l": [rng.choice([None, 1, 2]) for _ in range(rng.randint(0, 3))]})
    w.json("j", recs)
    els = [elem("r", {"g": rng.choice("xyz")}, c=[elem("Id", t=str(i + 1))] + ([elem("S", t=rng.choice("abABé"))] if rng.random() < 0.8 else []) +
                ([elem("N", t=rng.choice(["1", "2", "-1", "10", "bad"]))] if rng.random() < 0.8 else []) + ([elem("O", c=[elem("S", t=rng.choice("ab"))])] if rng.random() < 0.6 else [])) for i in range(n)]
    w.xml("x", [{"name": "id", "x": X("number", "Id"), "parser": "integer"}, {"name": "g", "x": X("string", attr="g")}, {"name": "s", "x": X("string", "S")},
                {"name": "i", "x": X("number", "N"), "parser": "float"}, {"name": "b", "x": X("boolean", "S"), "parser": "boolean"},
                {"name": "o", "type": "object", "x": X("nodes", "O"), "props": [{"name": "s", "x": X("string", "S")}]}], els, "<d>" + "".join(map(xml_text, els)) + "</d>", "/d/r")
    keys = {"c": ["s", "i", "f", "b", "id", "g"], "j": ["s", "i", "b", "id", "o.s", "o.i", "l.0", "l.1"], "x": ["s", "i", "b", "id", "o.s"]}
    for i in "cjx":
        w.index("m" + i, "map", i, ["g"])
        w.index("s" + i, "sqlite", i, ["g"])
    reqs = []
    singles = [(i, [(p, d)]) for i in "cjx" for p in keys[i] for d in (True, False)]   # every key alone, both ways
    for k in range(len(singles) + (24 if not THOROUGH else 60)):
        i = rng.choice("cjx")
        sort = [(p, rng.choice([True, False, None])) for p in rng.sample(keys[i], rng.choice([0, 1, 1, 2, 3]))]
        if k < len(singles):
            i, sort = singles[k]
        limit = rng.choice([0, 1, 2, 3, n // 3, n, n + 5, 100000])
        nest = {"again": rel("c", [("g", "g", "mc")], isArray=True, limit=1, sort=[("id", rng.random() < .5)])} if rng.random() < 0.3 else None
        rels = {"r": rel(i, [("g", "g", rng.choice(["default", "m" + i, "s" + i]))], isArray=True, limit=limit, sort=sort, rels=nest)}
        w.output("o%d" % k, "array", "p", rels=rels)
        w.route("o%d" % k)
        w.output("b%d" % k, "object", "p", {"g": ("g", "default", "string")}, rels=rels)
        w.route("b%d" % k)
        reqs += [Req("/o%d" % k, [("limit", "1"), ("offset", str(s))]) for s in range(3)] + [Req("/o%d" % k), Req("/b%d" % k, [("g", rng.choice(["x", "none"]))])]
    return w, reqs


def run(c):
    good = {"Levels": "2", "MaxRecords": "3", "Keys": "2", "SortFirst": "TRUE", "NullIsLowest": "TRUE", "Lexicographic": "TRUE"}
    c.design("SortLimit", good, [{"SortFirst": "FALSE"}, {"NullIsLowest": "FALSE"}, {"Lexicographic": "FALSE"}])
    if THOROUGH:
        c.model("SortLimit", constants={**good, "MaxRecords": "5", "Keys": "1"}, timeout=800)
    plans = [enumerated(c), typed(c)] + [typed(c) for _ in range(5 if THOROUGH else 0)] + [random_world(c, n) for n in ([6, 30] if not THOROUGH else [3, 6, 10, 14, 30, 60])]
    for w, reqs in plans:
        if not c.boot(w):
            continue
        with w.server:
            c.ask_all(w, c.use_world(w), reqs, threads=4)
        c.validate()
