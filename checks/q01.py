"""Q01: filtering by exact value returns exactly the records holding it, on every index that matches exactly."""
TECHNIQUE = 'TLA+ model of records and indexes; answers of the real server validated by TLC against it'
NOTE = 'Design models IndexBuild and BufferedStream exhausted by TLC, with refuted variants; every recorded answer of rodb for seeded CSV/JSON/XML worlds and requests (all exact indexes, null/missing/array/nested values) must be the one RodbQuery allows.'
from gen import *


def build(c, rng, n, wide=0):
    w = World()
    params = {}
    doms = {}
    w.parser("list", "split", delim="|", parser="string")
    w.parser("ilist", "split", delim=";", parser="integer")
    for kind in ("csv", "json", "xml"):
        name = "in_" + kind
        if kind == "csv":
            d = csv_typed(w, rng, name, n, arrays=True, wide=wide)
        else:
            d = {"json": json_typed, "xml": xml_typed}[kind](w, rng, name, n)
        doms[name] = d
        props = list(d)
        flat = [p for p in props if p not in ("l1", "l2", "arr")]
        ixs = ["default"]
        ixs.append(w.index("m_" + kind, "map", name, props))
        coll = {p: rng.choice(["nocase", "rtrim", "binary", "NoCase", "RTRIM"]) for p in flat if d[p][0] == "string" and rng.random() < 0.7}
        ixs.append(w.index("s_" + kind, "sqlite", name, flat, collate=coll))
        ixs.append(w.index("sm_" + kind, "sqlite", name, flat, dsn=":memory:"))
        for ix in w.W["indexes"].values():
            for pr in ix["props"]:
                pr["collate"] = pr["collate"].lower()
        ps = {}
        for p in props:
            for ix in ixs:
                if p in flat or not ix.startswith("s"):
                    ps["%s__%s" % (safe(p), ix)] = (p, ix, d[p][0])
        params[name] = ps
        out = w.output("o_" + kind, "array", name, ps, ldef=1000, lmax=1000)
        w.route(out)
    return w, doms, params


def requests(rng, doms, params, extra):
    reqs = []
    for name, d in doms.items():
        route = "/o_" + name[3:]
        for pn, (p, ix, parser) in params[name].items():
            vals = list(d[p][1])
            rng.shuffle(vals)
            absent = {"string": ["zz", "a\u00a0"], "integer": ["555"], "float": ["77.5"], "boolean": ["false"]}[d[p][0]]
            variants = {"integer": ["+1", "007"], "float": ["1.0", "+.5", "1."], "boolean": ["1"], "string": ["B", "a", "AB", "a  ", " a", "A "]}[d[p][0]]
            for v in vals[:4] + absent[:1] + rng.sample(variants, 1) + ([""] if parser == "string" else []):
                reqs.append(Req(route, [(pn, v)]))
        names = list(params[name])
        for _ in range(extra):
            k = rng.randint(2, 4)
            chosen, used = [], set()
            for pn in rng.sample(names, k + 3):
                p, ix, parser = params[name][pn]
                if (ix, p) in used or len(chosen) >= k:
                    continue
                used.add((ix, p))
                chosen.append((pn, rng.choice(d[p][1])))
            reqs.append(Req(route, chosen))
        reqs.append(Req(route))
    rng.shuffle(reqs)
    return reqs


def run(c):
    big = {"Scalars": '{"x","y"}', "MaxRecords": "4" if THOROUGH else "3", "MaxArray": "2", "Distinct": "TRUE"}
    c.design("IndexBuild", big, [{"Distinct": "FALSE"}], {"MaxRecords": "2"})
    sizes = [(12, 0), (40, 0), (120, 80)] if not THOROUGH else [(1, 0), (2, 0), (5, 0), (12, 0), (25, 0), (40, 0), (60, 300), (120, 80), (300, 40), (12, 0), (18, 0), (30, 0), (0, 0)]
    for n, wide in sizes:
        w, doms, params = build(c, c.rng, n, wide)
        if not c.boot(w):
            continue
        with w.server:
            wl = c.use_world(w)
            c.ask_all(w, wl, requests(c.rng, doms, params, 25 if n > 50 else 60))
        c.validate()
    w, reqs = scale(c.rng, 70000 if THOROUGH else 15000, ("default", "map", "sqlite"))
    if c.boot(w):
        with w.server:
            c.ask_all(w, c.use_world(w), reqs, threads=2)
        c.validate()
