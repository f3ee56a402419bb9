"""Q06: an object output returns the first match, or a not-found error."""
TECHNIQUE = 'TLA+ model of the object lookup exhausted by TLC; answers of the real server validated by TLC'
NOTE = 'FirstMatch (parameters parsed in any order, then the walk) exhausted with refuted variants; on rodb, all combinations of given, missing, wrong and duplicated parameters over every index kind and input type, through routes and query strings, are validated against RodbQuery.'
import itertools
from gen import *


def world(c, n):
    """Duplicated keys everywhere, so that the first of several matches has to be picked."""
    rng = c.rng
    w = World()
    w.parser("yn", "boolean", t=["yes", "oui"], f=["no"])
    w.parser("eur", "float", sep=",", ignore=" ")
    doms = {}
    D = csv_typed(w, rng, "in_csv", n, cols=[("s1", "string"), ("i1", "integer"), ("f1", "float"), ("b1", "boolean")], k=3)
    doms["csv"] = D
    doms["json"] = json_typed(w, rng, "in_json", n)
    doms["xml"] = xml_typed(w, rng, "in_xml", n)
    plans = []
    for kind, d in doms.items():
        flat = [p for p in d if p not in ("arr", "m")]
        strs = [p for p in flat if d[p][0] == "string"]
        w.index("m" + kind, "map", "in_" + kind, flat)
        w.index("s" + kind, "sqlite", "in_" + kind, flat)
        wild = [p for p in strs if kind == "csv"]
        combos = []
        for k in range(14):
            ps = {}
            for j, p in enumerate(rng.sample(flat, rng.choice([1, 1, 2, 3]))):
                ps["p%d" % j] = (p, rng.choice(["default", "m" + kind, "s" + kind]), d[p][0])
            combos.append(ps)
        for k, ps in enumerate(combos):
            o = "o%s%d" % (kind, k)
            w.output(o, "object", "in_" + kind, ps)
            w.route(o)
            if k % 3 == 0:
                w.route(o, "/r/" + o + "/", *sum([[(p,), "/"] for p in ps], [])[:-1])
            plans.append((o, ps, d))
    return w, plans


def requests(rng, plans, per):
    reqs = []
    for o, ps, d in plans:
        for _ in range(per):
            q_ = []
            for n, (p, ix, parser) in ps.items():
                x = rng.random()
                if x < 0.7:
                    q_.append((n, rng.choice(d[p][1])))
                elif x < 0.8:
                    q_.append((n, rng.choice({"integer": ["4x", "", "1.5", " 1"], "float": ["a", "1,5", ""], "boolean": ["yes", "", "2", "True"], "string": ["nowhere", ""]}[parser])))
                elif x < 0.87:
                    q_.append((n, rng.choice({"integer": ["999", "-5"], "float": ["77.25"], "boolean": ["false"], "string": ["zz"]}[parser])))
                elif x < 0.93:
                    q_ += [(n, rng.choice(d[p][1])), (n, rng.choice(d[p][1] + ["?"]))]
            if rng.random() < 0.2:
                q_ += [("other", "1"), ("limit", "0")]
            rng.shuffle(q_)
            reqs.append(Req("/" + o, q_))
    return reqs


def enumerated(c):
    """All records of two columns over three values (twice, in two orders); all the values, missing and wrong, of two parameters."""
    w = World()
    vals = ["", "1", "2"]
    rows = [list(t) for t in itertools.product(["1", "2"], repeat=2)] * 2
    c.rng.shuffle(rows)
    rows = [[str(i)] + r for i, r in enumerate(rows)]
    rows = [r for r in rows if r[1:] != ["2", "1"]]
    w.csv("i", [("id", "integer"), ("a", "integer"), ("b", "string")], rows)
    w.index("m", "map", "i", ["a", "b"])
    w.index("s", "sqlite", "i", ["a", "b"])
    w.index("w", "wildcard", "i", ["b"])
    w.index("f", "fts5", "i", ["b"])
    reqs = []
    for ia, ib in itertools.product(["default", "m", "s"], ["default", "m", "s", "w"]):
        o = "o_%s_%s" % (ia, ib)
        w.output(o, "object", "i", {"a": ("a", ia, "integer"), "b": ("b", ib, "string")})
        w.route(o)
        for va, vb in itertools.product([None, "", "1", "2", "3", "x"], [None, "", "1", "2", "3"]):
            reqs.append(Req("/" + o, ([("a", va)] if va is not None else []) + ([("b", vb)] if vb is not None else [])))
    w.route(w.output("of", "object", "i", {"a": ("a", "m", "integer"), "f": ("match", "f", "string")}))
    for va in ["1", "2", "3", "x"]:
        reqs += [Req("/of", [("a", va)], fts={"f": q_}) for q_ in (("t", codes("1")), ("t", codes("2")), ("t", codes("9")), ("bad", '"'), ("or", ("t", codes("1")), ("t", codes("2"))))]
        reqs += [Req("/of", [("a", va)])]
    return w, reqs


def route_requests(rng, w, plans):
    reqs = []
    for o, ps, d in plans:
        for _ in range(3):
            if int(o.lstrip("ocsvjnxml") or 0) % 3 == 0:
                parts = [rng.choice([v for v in d[p][1] if v and "/" not in v and "\n" not in v and "+" not in v] or ["1"]) for p, _, _ in ps.values()]
                reqs.append(Req("/r/" + o + "/" + "/".join(parts), [(n, "zz") for n in ps][:1] if rng.random() < 0.3 else []))
    return reqs


def run(c):
    good = {"Params": '{"p","q","r"}' if THOROUGH else '{"p","q"}', "Values": '{"v","w"}', "MaxRecords": "2" if THOROUGH else "3", "BadIsError": "TRUE", "AllParams": "TRUE"}
    c.design("FirstMatch", good, [{"BadIsError": "FALSE"}, {"AllParams": "FALSE"}], {"Params": '{"p","q"}', "MaxRecords": "2"})
    w, reqs = enumerated(c)
    if c.boot(w):
        with w.server:
            c.ask_all(w, c.use_world(w), reqs, threads=3)
    c.validate()
    for n in ([8, 25, 0] if not THOROUGH else [0, 1, 2, 4, 8, 25, 60]):
        w, plans = world(c, n)
        if not c.boot(w):
            continue
        with w.server:
            wl = c.use_world(w)
            c.ask_all(w, wl, requests(c.rng, plans, 8 if not THOROUGH else 40) + route_requests(c.rng, w, plans), threads=4)
        c.validate()
