"""Seeded generators of worlds and requests."""
from world import *

STRS = ["", "a", "A", "b", "ab", "aB", "a ", "é", "É", "日本", "x,y", 'q"q', "0", "true", "null", "line1\nline2"]
INTS = ["0", "1", "2", "-1", "7", "12", "100", "-30", "7000000000000000000", "-7000000000000000000", "9007199254740993", "9007199254740992"]
FLTS = ["0", "0.5", "1", "1.5", "-1", "2.25", "100.125", "1.50"]
BOOLS = ["true", "false", "1", "0", "TRUE", "FALSE"]
DOM = {"string": STRS, "integer": INTS, "float": FLTS, "boolean": BOOLS}


def dom(rng, parser, k=4):
    return rng.sample(DOM[parser], k)


def csv_typed(w, rng, name, n, cols=None, sparse=True, k=4, arrays=False, wide=0, **kw):
    """A CSV input with an id and typed columns holding few distinct values. Returns {column: (parser, domain)}."""
    cols = cols or [("s1", "string"), ("s2", "string"), ("i1", "integer"), ("f1", "float"), ("b1", "boolean")]
    doms = {c: (p, dom(rng, p, min(k, len(DOM[p])))) for c, p in cols}
    cols = list(cols)
    if arrays:
        cols += [("l1", "list"), ("l2", "ilist")]
        doms["l1"] = ("string", ["", "x", "y", "x|y", "y|x|y", "x|x", "z||x"])
        doms["l2"] = ("integer", ["1", "2", "2;1", "1;1;3", "3;2;3"])
    if wide:
        cols += [("pad", "string")]
        doms["pad"] = ("string", ["p" * wide, "q\n" * (wide // 2), 'r"' * (wide // 2), "é" * wide])
    rows = []
    for i in range(n):
        r = [str(i + 1)] + [rng.choice(doms[c][1]) for c, _ in cols]
        if sparse and rng.random() < 0.15:
            r = r[:rng.randrange(1, len(r) + 1)]
        rows.append(r)
    columns = [("id", "integer")] + list(cols)
    w.csv(name, columns, rows, rng=rng, **kw)
    if arrays:
        doms["l1"], doms["l2"] = ("string", ["", "x", "y", "z"]), ("integer", ["1", "2", "3"])
    if wide:
        doms["pad"] = ("string", doms["pad"][1][:1])
    doms["id"] = ("integer", [str(i + 1) for i in range(n)] or ["1"])
    return doms


def json_typed(w, rng, name, n):
    vals = {"s1": rng.sample(STRS, 4), "f1": [0, 0.5, 1, 2.25], "b1": [True, False], "m": [None, "a", 1, True]}
    recs = []
    for i in range(n):
        r = {"id": i + 1}
        for c, d in vals.items():
            if rng.random() < 0.9:
                r[c] = rng.choice(d)
        r["arr"] = rng.choice([["a", "b"], [], ["b", None, "b"], ["c", ["a", 1]], None, "a"])
        r["o"] = rng.choice([{"p": rng.choice(["u", "v"]), "q": {"r": rng.choice([1, 2])}}, {"p": "u"}, {}, None])
        recs.append(r)
    w.json(name, recs, rng=rng)
    return {"id": ("float", [str(i + 1) for i in range(n)] or ["1"]), "s1": ("string", vals["s1"]), "f1": ("float", ["0", "0.5", "1", "2.25"]),
            "b1": ("boolean", ["true", "false"]), "o.p": ("string", ["u", "v"]), "o.q.r": ("float", ["1", "2"]), "arr": ("string", ["a", "b", "c"]), "m": ("string", ["a", "1", "true"])}


def xml_typed(w, rng, name, n, xp="//item"):
    cs, cn = rng.sample(["a", "A", "b", "é", "x & y", "<t>"], 3), ["1", "2", "3"]
    recs, props = [], [
        {"name": "id", "x": X("number", "Id"), "parser": "integer"},
        {"name": "s1", "x": X("string", "Name")},
        {"name": "f1", "x": X("number", "N"), "parser": "float"},
        {"name": "k", "x": X("string", attr="k")},
        {"name": "has", "x": X("boolean", "Opt"), "parser": "boolean"},
        {"name": "o", "type": "object", "x": X("nodes", "Sub"), "props": [{"name": "p", "x": X("string", "P")}, {"name": "q", "x": X("number", attr="q"), "parser": "integer"}]}]
    for i in range(n):
        c = [elem("Id", t=str(i + 1)), elem("Name", t=rng.choice(cs))]
        if rng.random() < 0.8:
            c.append(elem("N", t=rng.choice(cn)))
        if rng.random() < 0.5:
            c.append(elem("Opt"))
        if rng.random() < 0.7:
            c.append(elem("Sub", {"q": rng.choice(cn)}, c=[elem("P", t=rng.choice(["u", "v"]))]))
        rng.shuffle(c)
        recs.append(elem("item", {"k": rng.choice(["k1", "k2"])}, c=c))
    sep = rng.choice(["", "\n", "\n  "])
    text = '<?xml version="1.0" encoding="UTF-8"?>\n<root>' + sep + sep.join(xml_text(r, rng) for r in recs) + sep + "</root>\n"
    w.xml(name, props, recs, text, xp)
    return {"id": ("integer", [str(i + 1) for i in range(n)] or ["1"]), "s1": ("string", cs), "f1": ("float", cn), "k": ("string", ["k1", "k2"]),
            "has": ("boolean", ["true", "false"]), "o.p": ("string", ["u", "v"]), "o.q": ("integer", cn)}


def safe(p):
    return p.replace(".", "_")


def scale(rng, n, kinds=("default", "map", "sqlite", "wildcard", "fts5")):
    """Many records, in a few groups: results longer than any buffer, page or batch. Returns the world and requests."""
    w = World()
    common = lambda i: "x" if i % 1000 else "y"
    rows = [[str(i + 1), common(i), "%s w%d" % (common(i), i % 500)] for i in range(n)]
    w.csv("i", [("id", "integer"), ("k", "string"), ("t", "string")], rows)
    ps = {"id": ("id", "default", "integer")}
    for kind in kinds:
        if kind == "default":
            ps["k_default"] = ("k", "default", "string")
        else:
            ix = w.index(kind, kind, "i", ["t"] if kind == "fts5" else ["k"])
            ps["k_" + kind] = ("match" if kind == "fts5" else "k", ix, "string")
    w.route(w.output("o", "array", "i", ps, ldef=3, lmax=n))
    q = lambda k, v: ([], {"k_fts5": ("t", codes(v))}) if k == "k_fts5" else ([(k, v)], None)
    reqs = [Req("/o", [("limit", "2"), ("offset", str(n - 2))])]
    for k in ps:
        if k == "id":
            continue
        for v, m in (("x", n - (n + 999) // 1000), ("y", (n + 999) // 1000)):
            flt, fts = q(k, v)
            for off in [m - 2] + rng.sample(range(m), 1):
                reqs.append(Req("/o", flt + [("limit", "4"), ("offset", str(max(0, off)))], fts=fts))
    flt, fts = q(rng.choice([k for k in ps if k != "id"]), "x")
    reqs.append(Req("/o", flt + [("limit", str(n))], fts=fts))
    return w, reqs
