"""Q05: limit and offset cut the complete result into consistent pages."""
TECHNIQUE = 'TLA+ model of paging exhausted by TLC; every page of the real server validated by TLC'
NOTE = 'Paging (the skip/take loop and a client walking the pages) exhausted with refuted variants; on rodb, every limit and offset around the size of the result, on results served by each index kind and by joins, whole walks through the pages, and every kind of malformed limit or offset are asked and validated against RodbQuery.'
from gen import *

BADNUM = ["0", "-1", "-100", "abc", "", "1.5", " 1", "1 ", "1e3", "0x10", "1_000", "+", "-", "--1", "99999999999999999999", "-99999999999999999999",
          "١", "1,0", "null", "true", "+0", "-0", "00", "1;2", "%31"]
GOODNUM = ["65536", "65537", "131073", "2147483648", "4294967296", "4294967297", "4294967298", "+2", "007", "1000000", "9223372036854775806", "+00000000000000000000001"]


def world(c, n):
    rng = c.rng
    w = World()
    rows = [[str(i + 1), rng.choice("ab"), rng.choice(["x", "y", "xy"])] for i in range(n)]
    w.csv("i", [("id", "integer"), ("k", "string"), ("t", "string")], rows, rng=rng)
    w.csv("child", [("k", "string"), ("v", "string")], [["a", "1"], ["b", "2"], ["a", "3"]])
    w.index("m", "map", "i", ["k", "t"])
    w.index("s", "sqlite", "i", ["k"])
    w.index("w", "wildcard", "i", ["t"])
    w.index("f", "fts5", "i", ["t", "k"])
    ps = {"k": ("k", "default", "string"), "mk": ("k", "m", "string"), "sk": ("k", "s", "string"), "wt": ("t", "w", "string"), "q": ("match", "f", "string")}
    rels = {"c": rel("child", [("k", "k", "default")], isArray=True)}
    outs = []
    for name, kw in (("plain", {}), ("small", dict(ldef=2, lmax=3)), ("one", dict(ldef=1, lmax=1)), ("eq", dict(ldef=4, lmax=4)),
                     ("named", dict(ldef=3, lmax=1000, lpar="n", opar="from")), ("maxonly", dict(ldef=100, lmax=100)), ("swap", dict(lpar="offset", opar="limit", ldef=2))):
        w.output(name, "array", "i", ps, rels=rels if name == "small" else None, **kw)
        w.route(name)
        outs.append(name)
    return w, outs


def filters(rng):
    return rng.choice([[], [("k", "a")], [("mk", "b")], [("sk", "a")], [("wt", "x")], [("k", "a"), ("wt", "y")], [("mk", "a"), ("sk", "a"), ("wt", "x")], [("mk", "zz")]])


def requests(c, w, outs, n, full):
    rng = c.rng
    reqs = []
    for o in outs:
        lp, op = w.W["outputs"][o]["lpar"], w.W["outputs"][o]["opar"]
        for l in [None] + list(range(0, n + 3)):
            for s in [None] + list(range(-1, n + 3)):
                if not full and rng.random() > 0.45:
                    continue
                flt = [] if rng.random() < 0.6 else filters(rng)
                p = ([(lp, str(l))] if l is not None else []) + ([(op, str(s))] if s is not None else []) + flt
                rng.shuffle(p)
                fts = {"q": ("t", codes("x"))} if rng.random() < 0.1 else {}
                reqs.append(Req("/" + o, p, fts=fts))
        for b in BADNUM + GOODNUM:
            reqs.append(Req("/" + o, [(lp, b)] + filters(rng)))
            reqs.append(Req("/" + o, [(op, b)] + filters(rng)))
            reqs.append(Req("/" + o, [(lp, rng.choice(BADNUM + GOODNUM)), (op, b)]))
        reqs += [Req("/" + o, [(lp, "1"), (lp, "2")]), Req("/" + o, [(op, "1"), (op, "x")]), Req("/" + o, [("Limit", "1"), ("OFFSET", "2"), ("lim", "1")])]
    return reqs


def walk(c, w, wl, o, flt, size, n):
    """A client walking through the pages: every record exactly once."""
    lp, op = w.W["outputs"][o]["lpar"], w.W["outputs"][o]["opar"]
    pages, off = [], 0
    while off <= n + size:
        rq = Req("/" + o, [(lp, str(size)), (op, str(off))] + flt)
        r = w.server.get(rq.target())
        got = c.record(wl, rq, r, w)
        if got["kind"] != "json" or not r.json():
            break
        pages += [x["id"] for x in r.json()]
        off += len(r.json())
    whole = w.server.get(Req("/plain", [("limit", "1000")] + flt).target()).json()
    if pages != [x["id"] for x in whole]:
        c.violation("walk", "the pages of size %d of /%s %r hold %r instead of %r" % (size, o, flt, pages, [x["id"] for x in whole]), {"config": w.cfg, "routes": w.routes, "files": read_files(w)})
    c.cov["walks"] = c.cov.get("walks", 0) + 1


from check import read_files


def run(c):
    good = {"MaxRecords": "7" if THOROUGH else "5", "Max": "3", "Default": "2", "CapToMax": "TRUE", "SkipIsFree": "TRUE", "StopAtEnd": "TRUE"}
    c.design("Paging", good, [{"CapToMax": "FALSE"}, {"SkipIsFree": "FALSE"}, {"StopAtEnd": "FALSE"}])
    for n in ([0, 1, 5, 9] if not THOROUGH else [0, 1, 2, 3, 5, 8, 12, 20]):
        w, outs = world(c, n)
        if not c.boot(w):
            continue
        with w.server:
            wl = c.use_world(w)
            c.ask_all(w, wl, requests(c, w, outs, n, THOROUGH), threads=4)
            for o in outs:
                for size in (1, 2, 3, 7):
                    walk(c, w, wl, o, filters(c.rng), size, n)
        c.validate()
    # the documented defaults: 100 records, at most 1000
    w = World()
    w.csv("i", [("id", "integer")], [[str(i + 1)] for i in range(1010)])
    w.route(w.output("o", "array", "i"))
    w.route(w.output("m", "array", "i", ldef=1000))
    if c.boot(w):
        with w.server:
            wl = c.use_world(w)
            c.ask_all(w, wl, [Req("/o"), Req("/o", [("limit", "101")]), Req("/o", [("limit", "1000")]), Req("/o", [("limit", "1001")]), Req("/o", [("limit", "5000")]), Req("/o", [("offset", "950")]),
                              Req("/m"), Req("/o", [("limit", "1000"), ("offset", "20")]), Req("/o", [("offset", "1009")]), Req("/o", [("offset", "1010")])], threads=4)
        c.validate()
    w, reqs = scale(c.rng, 70000 if THOROUGH else 15000)
    if c.boot(w):
        with w.server:
            c.ask_all(w, c.use_world(w), reqs, threads=2)
        c.validate()
