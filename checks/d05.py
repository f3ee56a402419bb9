"""D05: dotted property paths reach exactly the designated value."""
TECHNIQUE = 'TLA+ model of the walk along a path exhausted by TLC against a non-operational definition; paths used by filters, indexes and sorts of the real server validated by TLC'
NOTE = 'PathNav (all small values and paths: members, indexes, negative and out of range indexes, nulls, scalars on the way) exhausted with refuted variants. On rodb, enumerated values (json, csv through the json and split parsers, xml arrays and objects) times enumerated paths are asked through filters, used by every kind of index (starting or refusing to) and by sorts: every outcome must be the one of the specification, and nothing may crash.'
import itertools
from gen import *

LEAF = [None, "a", 1, True]
PATHS = ["a", "b", "0", "1", "-1", "+1", "01", "x", "", "a.a", "a.0", "0.a", "0.0", "1.0", "1.a", "b.1", "a.-1", "0.-1", "a.b.c", "0.0.0", "a.0.a", "0.a.0", "x.y.z", "99999999999", "99999999999999999999", "1e0", "0x1", " 0", "a.", ".a", "a..b"]


def values(depth):
    if depth == 0:
        return list(LEAF)
    sub = values(depth - 1)
    out = list(LEAF) + [[], {}]
    out += [[x] for x in sub] + [{"a": x} for x in sub] + [{"0": x} for x in sub]
    if depth == 1:
        out += [[x, y] for x in sub for y in sub] + [{"a": x, "b": y} for x in sub for y in sub]
    else:
        out += [[x, y] for x in sub[:6] for y in sub[4:]] + [{"a": x, "b": y} for x in sub[4:] for y in sub[:6]] + [{"b": x, "1": y} for x, y in zip(sub, reversed(sub))]
    return out


def asked(w, inp, k, paths):
    """An output with a filter on each path, by text, number and boolean."""
    params = {}
    for j, p in enumerate(paths):
        for t, parser in (("s", "string"), ("n", "float"), ("b", "boolean")):
            params["%s%d" % (t, j)] = (p, "default", parser)
    w.output("o%d" % k, "array", inp, params, ldef=5)
    w.route("o%d" % k)


def asks(c, k, paths, quick):
    out = []
    for j in range(len(paths)):
        q = [("s%d" % j, "a"), ("n%d" % j, "1"), ("b%d" % j, "1")]
        out += [q[i] for i in (c.rng.sample(range(3), 2) if quick else range(3))]
    return [Req("/o%d" % k, [x]) for x in out]


def by_filter(c):
    jobs = []
    vs = values(2)
    fixed = values(1)
    pick = fixed + c.rng.sample([v for v in vs], 100 if not THOROUGH else 600)
    for lo in range(0, len(pick), 80):
        w, reqs = World(), []
        for k, v in enumerate(pick[lo:lo + 80]):
            w.json("i%d" % k, [{"v": v, "w": "z"}])
            paths = ["v." + p for p in c.rng.sample(PATHS, 9)] + ["v", "w.a", "nothing.x"]
            asked(w, "i%d" % k, k, paths)
            reqs += asks(c, k, paths, not THOROUGH)
        jobs.append((w, reqs))
    return jobs


def by_csv_xml(c):
    w, reqs = World(), []
    w.parser("words", "split", delim=" ", parser="string")
    w.parser("nums", "split", delim=",", parser="float")
    w.parser("bools", "split", delim=" ", parser="boolean")
    w.parser("nested", "split", delim=";", parser="words")
    rng = c.rng
    k = 0
    for _ in range(24 if not THOROUGH else 40):
        row = [("json", rng.choice(values(2))), rng.choice(["a", "a b", "", " ", "b a a"]), rng.choice(["1", "1,2", "2,1"]), rng.choice(["a;b a", "a", ";a", "b a;a b;"]), "a"]
        w.csv("c%d" % k, [("j", "json"), ("l", "words"), ("n", "nums"), ("m", "nested"), ("s", "string")], [row[:rng.randint(1, 5)] if rng.random() < 0.3 else row], rng=rng, delim="|")
        paths = ["j." + p for p in rng.sample(PATHS, 5)] + ["l." + p for p in rng.sample(PATHS[:9], 3)] + ["m." + p for p in rng.sample(["0.0", "0.1", "1.0", "1.1", "2.0", "-1.0", "0.x", "9.9", "0.0.0"], 4)] + ["n." + rng.choice(["0", "1", "-1", "a", "0.0"]), "s.0", "s"]
        asked(w, "c%d" % k, k, paths)
        reqs += asks(c, k, paths, True)
        k += 1
    props = [{"name": "s", "x": X("string", "S")}, {"name": "n", "x": X("number", "N"), "parser": "float"}, {"name": "ws", "x": X("string", "W"), "parser": "words"},
             {"name": "b", "x": X("boolean", "S"), "parser": "boolean"},
             {"name": "l", "type": "array", "x": X("nodes", "L"), "items": {"x": X("string")}},
             {"name": "lb", "type": "array", "x": X("nodes", "L"), "items": {"x": X("string"), "parser": "boolean"}},
             {"name": "ll", "type": "array", "x": X("nodes", "LL"), "items": {"type": "array", "x": X("nodes", "M"), "items": {"x": X("number"), "parser": "float"}}},
             {"name": "o", "type": "object", "x": X("nodes", "O"), "props": [{"name": "a", "x": X("string", "A")}, {"name": "0", "x": X("count", "M"), "parser": "integer"},
                                                                             {"name": "l", "type": "array", "x": X("nodes", "L"), "items": {"type": "object", "x": X("nodes"), "props": [{"name": "a", "x": X("string")}, {"name": "w", "x": X("string"), "parser": "words"}]}}]}]
    XP = ["s", "s.0", "n", "n.a", "ws.0", "ws.1", "ws.x", "ws.0.0", "b", "b.0", "l.0", "l.1", "l.-1", "l.x", "l", "lb.0", "lb.1", "ll.0.0", "ll.1.0", "ll.0.1", "ll.0", "ll.0.x", "ll.9.9", "o", "o.a", "o.0", "o.l", "o.l.0", "o.l.0.a", "o.l.1.a", "o.l.0.w.0", "o.l.0.w.x", "o.x", "o.x.y", "o.a.b", "o.l.-1.a", "zz", "zz.a", "", "o.", "o..a"]
    for _ in range(30 if not THOROUGH else 45):
        L = lambda: elem("L", t=rng.choice(["a", "a b", "1", "true", ""]))
        ch = [elem("N", t="1")] + [L() for _ in range(rng.randint(0, 2))] + [elem("LL", c=[elem("M", t=rng.choice("12")) for _ in range(rng.randint(0, 2))]) for _ in range(rng.randint(0, 2))]
        if rng.random() < 0.8:
            ch.append(elem("S", t=rng.choice(["a", "1"])))
        ch += [elem("W", t=rng.choice(["a", "b a"]))]
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            ch.append(elem("O", c=[elem("A", t="a")] * rng.randint(0, 1) + [elem("M")] * rng.randint(0, 2) + [L() for _ in range(rng.randint(0, 2))]))
        e = elem("r", c=ch)
        use = [p for p in props if p["name"] != "lb" or rng.random() < 0.3]
        w.xml("x%d" % k, use, [e], "<d>%s</d>" % xml_text(e, rng), "//r")
        paths = [p for p in rng.sample(XP, 14) if p.split(".")[0] in [q["name"] for q in use] + ["zz"]]
        asked(w, "x%d" % k, k, paths)
        reqs += asks(c, k, paths, True)
        k += 1
    return [(w, reqs)]


def by_index(c):
    """An index over a path: refused at startup, or answering as a scan does."""
    jobs = []
    rng = c.rng
    vs = values(2)
    for k in range(80 if not THOROUGH else 400):
        w = World()
        n = rng.randint(1, 3)
        p = rng.choice(PATHS[:24] + ["nothing"])
        kind = rng.choice(["map", "map", "sqlite", "wildcard", "fts5"])
        simple = rng.random() < 0.6   # values on which the path goes somewhere more often
        first = p.split(".")[0]
        recs = []
        for i in range(n):
            v = rng.choice(vs)
            if simple:
                leaf = rng.choice(["a", "a", "b"] if kind in ("wildcard", "fts5") else LEAF)
                v = leaf
                for s in reversed(p.split(".")):
                    v = ([leaf] * int(s) + [v]) if s in ("0", "1") and rng.random() < 0.7 else {s: v}
            recs.append({"v": v})
        w.json("i", recs)
        prop = "v." + p if rng.random() < 0.9 else "v"
        w.index("x", kind, "i", [prop])
        key = "match" if kind == "fts5" else prop
        params = {"s": (key, "x", "string")}
        if kind in ("map", "sqlite"):
            params.update(n=(prop, "x", "float"), b=(prop, "x", "boolean"))
        w.route(w.output("o", "array", "i", params))
        q = [Req("/o", fts={"s": ("t", codes(t))}) for t in ("a", "1")] if kind == "fts5" else [Req("/o", [(x, t)]) for x in params for t in {"s": ["a", "b"], "n": ["1"], "b": ["true"]}[x]]
        jobs.append((w, q + [Req("/o")]))
    return jobs


def by_sort(c):
    w, reqs = World(), []
    rng = c.rng
    w.parser("nums", "split", delim=" ", parser="float")
    for k in range(8 if not THOROUGH else 25):
        recs = []
        for i in range(8):
            num = lambda: rng.choice([1, 2, 3, None])
            r = {"id": i, "g": 1, "o": {"a": num(), "l": [num() for _ in range(rng.randint(0, 3))]}, "l": [num() for _ in range(rng.randint(0, 3))], "m": {"x": {"y": rng.choice(["a", "b", "B", None])}}}
            for f in ("o", "l", "m"):
                if rng.random() < 0.15:
                    r[f] = None
                elif rng.random() < 0.1:
                    del r[f]
            recs.append(r)
        w.json("i%d" % k, recs)
        for j, s in enumerate([[("o.a", True), ("id", True)], [("l.1", False), ("id", True)], [("m.x.y", None), ("l.0", False), ("id", True)], [("o.l.0", True), ("o.l.1", False), ("id", False)], [("l.-1", True), ("nothing.at.all", True), ("id", False)]]):
            w.output("o%d_%d" % (k, j), "array", "i%d" % k, {"id": ("id", "default", "float")}, rels={"r": rel("i%d" % k, [("g", "g", "default")], isArray=True, sort=s, limit=rng.choice([0, 3]))})
            w.route("o%d_%d" % (k, j))
            reqs.append(Req("/o%d_%d" % (k, j), [("limit", "1")]))
        w.csv("c%d" % k, [("id", "integer"), ("n", "nums")], [[str(i), " ".join(rng.choice("123") for _ in range(rng.randint(1, 3)))] for i in range(8)])
        w.output("c%d" % k, "array", "c%d" % k, {}, rels={"r": rel("c%d" % k, [("id", "id", "default")], isArray=True, sort=[("n.1", True), ("n.0", False), ("id", True)])})
        w.route("c%d" % k)
        reqs.append(Req("/c%d" % k, [("limit", "2")]))
    return [(w, reqs)]


def run(c):
    good = {"Depth": "2", "MaxPath": "3", "MaxArray": "1", "NullStops": "TRUE", "BoundsChecked": "TRUE"}
    c.design("PathNav", good, [{"NullStops": "FALSE"}, {"BoundsChecked": "FALSE"}], {"MaxPath": "2"}, heap="12g")
    for jobs in (by_filter(c), by_csv_xml(c), by_index(c), by_sort(c)):
        c.run_jobs(jobs)
    c.validate()
