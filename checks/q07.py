"""Q07: relationships embed exactly the related records."""
TECHNIQUE = 'TLA+ model of relationship loading exhausted by TLC; delivered records of the real server validated by TLC'
NOTE = 'Relations (every loading order, names shared with properties, missing parents, two levels) exhausted with refuted variants; on rodb, enumerated and random relationship trees over csv, json and xml inputs and all index kinds are delivered by array and object outputs and validated, repeatedly since the loading order is random.'
import itertools
from gen import *

INPUTS = ("csv", "json", "xml")


def data(c, w, n):
    rng = c.rng
    w.parser("list", "split", delim="|", parser="string")
    rows = []
    for i in range(n):
        r = [str(i + 1), rng.choice(["a", "b", "c", "A", "a b"]), rng.choice("123"), rng.choice(["1", "2", "2.5"]), rng.choice(["true", "false"]), rng.choice(["", "a", "a|b", "b|b"])]
        if rng.random() < 0.15:
            r = r[:rng.randint(2, 5)]
        rows.append(r)
    w.csv("csv", [("id", "integer"), ("k", "string"), ("n", "integer"), ("f", "float"), ("b", "boolean"), ("l", "list")], rows)
    recs = []
    for i in range(n):
        r = {"id": i + 1, "k": rng.choice(["a", "b", "c", None]), "n": rng.choice([1, 2, 3]), "f": rng.choice([1, 2.5]), "b": rng.choice([True, False, None]),
             "o": {"k": rng.choice(["a", "b", "x"]), "n": rng.choice([1, 2])}, "l": rng.choice([[], ["a"], ["a", "b"], None])}
        if rng.random() < 0.1:
            del r["b"]
        recs.append(r)
    w.json("json", recs)
    props = [{"name": "id", "x": X("number", "Id"), "parser": "integer"}, {"name": "k", "x": X("string", "K")}, {"name": "n", "x": X("number", "N"), "parser": "integer"},
             {"name": "f", "x": X("number", "N"), "parser": "float"}, {"name": "b", "x": X("boolean", "K"), "parser": "boolean"},
             {"name": "o", "type": "object", "x": X("nodes", "O"), "props": [{"name": "k", "x": X("string", "K")}, {"name": "n", "x": X("number", "N"), "parser": "float"}]}]
    els = []
    for i in range(n):
        ch = [elem("Id", t=str(i + 1)), elem("N", t=rng.choice("123"))]
        if rng.random() < 0.8:
            ch.append(elem("K", t=rng.choice("abc")))
        if rng.random() < 0.7:
            ch.append(elem("O", c=[elem("K", t=rng.choice("abx")), elem("N", t=rng.choice("12"))]))
        els.append(elem("r", c=ch))
    w.xml("xml", props, els, "<d>" + "".join(xml_text(e) for e in els) + "</d>", "//r")
    flat = ["id", "k", "n", "f", "b"]
    for i in INPUTS:
        paths = flat + (["o.k", "o.n"] if i != "csv" else [])
        w.index("m" + i, "map", i, paths + (["l"] if i != "xml" else []))
        w.index("s" + i, "sqlite", i, paths, collate={"k": "nocase"})
        w.index("w" + i, "wildcard", i, ["k"] if i != "json" else ["o.k"], icase=(i == "xml"))
        w.index("f" + i, "fts5", i, ["k"] if i != "json" else ["k", "o.k"])
    return w


TYPE = {"id": "n", "k": "s", "n": "n", "f": "f", "b": "b", "l": "l", "o": "o", "o.k": "s", "o.n": "f"}
TOP = {"csv": ["id", "k", "n", "f", "b", "l"], "json": ["id", "k", "n", "f", "b", "l", "o"], "xml": ["id", "k", "n", "f", "b", "o"]}


def rtree(rng, parent, depth, risky):
    rels = {}
    for _ in range(rng.choice([1, 1, 2, 3]) if depth else 0):
        child = rng.choice(INPUTS)
        kinds = ["default", "m", "s", "w", "f"]
        match, used = [], set()
        for _ in range(rng.choice([1, 1, 1, 2])):
            kind = rng.choice(kinds)
            ix = kind if kind == "default" else kind + child
            if kind == "w":
                ch = "k" if child != "json" else "o.k"
            elif kind == "f":
                if used:
                    continue
                ch = "match"
            else:
                ch = rng.choice(["id", "k", "n", "f", "b"] + (["o.k", "o.n"] if child != "csv" else []) + (["l"] if kind == "m" and child != "xml" else []))
            t = "s" if kind in "wf" and kind != "default" else TYPE[ch] if ch != "l" else "s"
            same = [p for p in TOP[parent] if TYPE[p] == t or (t in "nf" and TYPE[p] in "nf" and parent != child)]
            p = rng.choice(same)
            if kind == "w" and parent == "json":   # null or missing: always an error
                kind = ix = "default"
            if kind == "f" and parent != "csv":
                continue
            if risky and rng.random() < 0.25 and kind != "f":
                p = rng.choice(TOP[parent] + ["nowhere", "o.k", "K", "csv"])
            if ch in used:
                continue
            used.add(ch)
            match.append((p, ch, ix))
        if not match:
            continue
        many = rng.random() < 0.65
        name = rng.choice(["r1", "r2", "r3", "k", "n", "id", "o", "l", "with space", "é"])
        rels[name] = rel(child, match, isArray=many, limit=rng.choice([0, 0, 1, 2]) if many else rng.choice([0, 0, 3]),
                         rels=rtree(rng, child, depth - 1, risky) if rng.random() < 0.6 else None)
    return rels


def random_world(c, n, outs, depth):
    rng = c.rng
    w = data(c, World(), n)
    reqs = []
    for k in range(outs):
        inp = rng.choice(INPUTS)
        rels = rtree(rng, inp, depth, k % 3 == 0)
        w.output("a%d" % k, "array", inp, {"k": ("k", "default", "string")}, rels=rels)
        w.output("o%d" % k, "object", inp, {"id": ("id", "m" + inp, "integer" if inp != "json" else "float")}, rels=rels)
        w.route("a%d" % k)
        w.route("o%d" % k, "/o%d/" % k, ("id",))
        reqs += [Req("/a%d" % k)] + [Req("/a%d" % k, [("limit", "1"), ("offset", str(x))]) for x in rng.sample(range(n), min(n, 3))]
        reqs += [Req("/o%d/%d" % (k, x)) for x in rng.sample(range(1, n + 2), min(n, 4))]
    return w, reqs


def enumerated(c):
    """One parent input with two properties; all the pairs of relationships named after new or existing properties, matched on
    either property or on a missing one, single or multiple, nested or not."""
    w = World()
    w.csv("p", [("a", "string"), ("b", "string")], [["1", "2"], ["2", "1"], ["1", "9"]])
    w.csv("q", [("a", "string"), ("v", "string")], [["1", "2"], ["1", "1"], ["2", "1"]])
    w.index("m", "map", "q", ["a", "v"])
    one = [(name, par, many, nested) for name in ("a", "b", "x") for par in ("a", "b", "c") for many in (False, True) for nested in ("", "v", "zz")]
    pairs = [(x,) for x in one] + [p for p in itertools.combinations(one, 2) if p[0][0] != p[1][0]]
    c.rng.shuffle(pairs)
    pairs.sort(key=lambda p: any(x[1] == "c" or x[3] == "zz" for x in p))
    pairs = pairs if THOROUGH else c.rng.sample(pairs[:400], 160) + c.rng.sample(pairs[400:], 60)
    reqs = []
    for k, p in enumerate(pairs):
        rels = {name: rel("q", [(par, "a", "m")], isArray=many, rels={"a": rel("q", [(nested, "v", "default")], isArray=not many)} if nested else None) for name, par, many, nested in p}
        w.output("o%d" % k, "array", "p", rels=rels)
        w.route("o%d" % k)
        reqs += [Req("/o%d" % k)] + [Req("/o%d" % k, [("offset", str(s)), ("limit", "1")]) for s in range(3)]
    return w, reqs


def nulls(c):
    """Parents whose values are null or not, matched on two properties at once through every kind of index; many children."""
    w = World()
    vals = [None, "x", "y"]
    recs = [{"id": i, "a": a, "b": b, "c": None if i % 2 else "x"} for i, (a, b) in enumerate(itertools.product(vals, vals))]
    w.json("p", recs)
    ch = [dict(r, id=100 + r["id"]) for r in recs] + [{"id": 200, "a": "x"}, {"id": 201, "b": "y"}, {"id": 202}]
    c.rng.shuffle(ch)
    w.json("q", ch)
    w.index("m", "map", "q", ["a", "b", "c"])
    w.index("s", "sqlite", "q", ["a", "b", "c"])
    w.csv("many", [("id", "integer"), ("k", "string")], [[str(i), "x" if i % 8 else "y"] for i in range(340)])
    w.index("mm", "map", "many", ["k"])
    reqs = []
    k = 0
    for pa, pb in [("a", "b"), ("b", "a"), ("c", "a"), ("b", "c")]:
        for i1, i2 in [("default", "default"), ("m", "default"), ("default", "s"), ("m", "m"), ("s", "s"), ("m", "s")]:
            for child in (("a", "b"), ("b", "a")):
                k += 1
                rels = {"r": rel("q", [(pa, child[0], i1), (pb, child[1], i2)], isArray=True), "one": rel("q", [(pb, child[1], i2), (pa, child[0], i1)])}
                w.route(w.output("o%d" % k, "array", "p", rels=rels))
                reqs.append(Req("/o%d" % k))
    for limit in (0, 255, 256, 257, 290):
        w.route(w.output("l%d" % limit, "array", "p", {"id": ("id", "default", "float")}, rels={"r": rel("many", [("a", "k", "mm" if limit % 2 else "default")], isArray=True, limit=limit)}))
        reqs += [Req("/l%d" % limit, [("id", str(i))]) for i in (3, 8)]
    return w, reqs


def run(c):
    good = {"Props": '{"a","b"}', "Values": "{1,2}", "RelNames": '{"a","x"}', "MaxChildren": "3" if THOROUGH else "2", "MatchBase": "TRUE", "MissingIsError": "TRUE"}
    c.design("Relations", good, [{"MatchBase": "FALSE"}, {"MissingIsError": "FALSE"}], {"MaxChildren": "2"})
    for w, reqs in (enumerated(c), nulls(c)):
        if c.boot(w):
            with w.server:
                wl = c.use_world(w)
                c.ask_all(w, wl, reqs * 2, threads=4)
        c.validate()
    for n, outs, depth in [(5, 40, 2), (6, 20, 3)] if not THOROUGH else [(4, 60, 2), (6, 60, 3), (9, 40, 3), (3, 60, 4), (12, 30, 2), (6, 60, 3), (1, 30, 3)]:
        w, reqs = random_world(c, n, outs, depth)
        if not c.boot(w):
            continue
        with w.server:
            wl = c.use_world(w)
            c.ask_all(w, wl, reqs * 2, threads=4)
        c.validate()
