"""R01: requests reach the first matching route with the right parameters."""
TECHNIQUE = 'TLA+ model of route matching exhausted by TLC; requests answered by the real server through enumerated and random routes validated against it'
NOTE = 'RouteCases (longest-first matching with backtracking against the declarative cutting of the path) exhausted for all short routes and paths with refuted variants. On rodb, services with many overlapping routes (all parser kinds as parameters, adjacent and repeated parameters, literals full of regular-expression characters, spaces, percent signs and non-ASCII) receive every path made from their parts and mutations of them, with query parameters of the same and other names, and other methods; each must be answered by the first matching route with the specified parameters, or 404.'
import itertools, re
from gen import *

PARS = {"string": ("string", {}, ["a", "ab", "a/b", "é", "a.b", "1", "1.5", " ", "true", "A", "-", "a a", "%", "%20", "+", "日本", "x?y", "#", "a&b=c", "a;b"]),
        "integer": ("integer", {}, ["0", "12", "-3", "007", "1a", "-", "+1", "--1", "1 "]),
        "ign": ("integer", {"ignore": ", -"}, ["1,000", "1-0", " 5", ",", "-4", "12"]),
        "float": ("float", {"sep": "."}, ["1", "1.5", "-0.5", "1.", "1..5", ".5", "1e3", "1,5"]),
        "comma": ("float", {"sep": ",", "ignore": "."}, ["1,5", "1.5", "1.000,25", "1,", "2"]),
        "boolean": ("boolean", {"t": ["true", "1", "TRUE"], "f": ["false", "0", "FALSE"]}, ["true", "0", "True", "tru", "10"]),
        "meta": ("boolean", {"t": ["a.c", "x|y", "ab"], "f": ["a", "[0-9]", "("]}, ["a.c", "abc", "x", "x|y", "ab", "a", "5", "[0-9]", "("])}
LITS = ["/", "/a", "/b/", "a", ".", "+", "(", ")", "[0-9]", "\\d", "é", " ", "%", "%20", "*", "?", "|", "^", "{}", "-", "1", ".*", "/A", "\\", "#", "&", "=", ":", "//"]


def plausible(kind, t):
    """Texts the parser surely accepts (rows of the file, which have to be readable)."""
    typ, k, _ = PARS[kind]
    if typ == "string":
        return "\n" not in t
    if typ == "boolean":
        return t in k["t"] + k["f"]
    for ch in k.get("ignore", ""):
        t = t.replace(ch, "")
    if typ == "integer":
        return re.fullmatch(r"[+-]?[0-9]{1,6}", t) is not None
    return re.fullmatch(r"-?[0-9]{1,5}(\.[0-9]{1,3})?", t.replace(k["sep"], ".")) is not None


def cuts(segs, path, pars):
    """All the captures with which a route may match a path, whatever its parameters accept."""
    if not segs:
        return [[]] if path == "" else []
    if isinstance(segs[0], str):
        return cuts(segs[1:], path[len(segs[0]):], pars) if path.startswith(segs[0]) else []
    return [[(segs[0][0], path[:k])] + r for k in range(len(path) + 1) for r in cuts(segs[1:], path[k:], pars)]


def make(rng, nroutes, npaths, routes=None):
    """routes: [(segs, {param: kind})]; one output (and file) per route, whose rows hold every value a path may carry."""
    w = World()
    for n, (typ, k, _) in PARS.items():
        if n not in ("string", "integer", "float", "boolean"):
            w.parser(n, typ, **k)
    if routes is None:
        routes, seen = [], set()
        while len(routes) < nroutes:
            segs, ps, prev = ["/" + rng.choice(["", "", "a", "r/"])], {}, None
            for _ in range(rng.randint(0, 4)):
                if rng.random() < 0.55:
                    if ps and rng.random() < 0.12:
                        n = rng.choice(sorted(ps))
                    else:
                        n = "p%d" % len(ps)
                        ps[n] = rng.choice(sorted(PARS))
                    segs.append((n,))
                else:
                    l = rng.choice(LITS)
                    if isinstance(segs[-1], str):
                        segs[-1] += l
                    else:
                        segs.append(l)
            p = "".join("{%s}" % s[0] if isinstance(s, tuple) else s for s in segs)
            if p not in seen and len(ps) <= 3:
                seen.add(p)
                routes.append((segs, ps))
    paths = []
    for _ in range(npaths):
        segs, ps = rng.choice(routes)
        t = "".join(rng.choice(PARS[ps[s[0]]][2] if rng.random() < 0.85 else PARS["string"][2] + [""]) if isinstance(s, tuple) else s for s in segs)
        if rng.random() < 0.35 and t:
            k = rng.randrange(len(t))
            t = rng.choice([t[:k] + t[k + 1:], t[:k] + rng.choice("a1./-é %xA\n") + t[k:], t + rng.choice(["/", "x", "1", "\n", " "]), t.swapcase(), "/" + t, t + t, t[:k]])
        if not t.startswith("/"):
            t = "/" + t
        paths.append(t)
    for segs, ps in routes:   # the literal text with another character where a pattern would see a dot
        if not ps:
            paths += ["".join(segs), "".join(segs).replace(".", "x").replace("?", ""), "".join(segs).replace("[0-9]", "5").replace("\\d", "5").replace("(", "").replace(")", "")]
    paths = list(dict.fromkeys(paths))
    for j, (segs, ps) in enumerate(routes):
        vals = {n: {} for n in ps}
        rows = {tuple("" for _ in ps): 1}
        for t in paths:
            for cap in cuts(segs, t, ps):
                last = dict(cap)
                if all(plausible(ps[n], v) and v != "" for n, v in last.items()) and len(rows) < 60:
                    rows[tuple(last[n] for n in ps)] = 1
        good = [r for r in rows if all(r)] or [tuple({"string": "z", "integer": "1", "float": "1", "boolean": PARS[ps[n]][1].get("t", ["true"])[0]}[PARS[ps[n]][0]] for n in ps)]
        w.csv("i%d" % j, [("id", "integer")] + [(n, ps[n]) for n in ps], [[str(i)] + list(r) for i, r in enumerate(good)])
        w.output("o%d" % j, rng.choice(["array", "array", "object"]) if ps else "array", "i%d" % j, {n: (n, "default", ps[n]) for n in ps})
        w.route("o%d" % j, *segs)
    reqs = []
    for t in paths:
        for _ in range(1 if rng.random() < 0.6 else 2):
            qs = []
            if rng.random() < 0.35:
                for n in rng.sample(["p0", "p1", "p2", "P0", "other", "limit", ""], rng.randint(1, 3)):
                    qs.append((n, rng.choice(["1", "a", "true", "zz", ""])))
                    if rng.random() < 0.2:
                        qs.append((n, "a"))
            reqs.append(Req(t, qs, method=rng.choice(["GET"] * 12 + ["POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "get", "TRACE"])))
    return w, reqs


def enumerated(c):
    """Every route of two or three parts, every path of their texts."""
    parts = [("s", "string"), ("i", "integer"), ("b", "meta"), "a", "."]
    jobs = []
    combos = [t for t in itertools.product(parts, repeat=3)]
    if not THOROUGH:
        combos = c.rng.sample(combos, 40)
    alpha = ["a", "1", ".", "-", "c"]
    texts = ["".join(t) for k in range(1, 5) for t in itertools.product(alpha, repeat=k)]
    for b in range(0, len(combos), 5):
        routes = []
        for combo in combos[b:b + 5]:
            segs, ps = ["/"], {}
            for k, x in enumerate(combo):
                if isinstance(x, tuple):
                    ps["p%d" % k] = x[1]
                    segs.append(("p%d" % k,))
                elif isinstance(segs[-1], str):
                    segs[-1] += x
                else:
                    segs.append(x)
            if segs not in [r[0] for r in routes]:
                routes.append((segs, ps))
        jobs.append((routes, c.rng.sample(texts, 90 if not THOROUGH else 200)))
    out = []
    for routes, ts in jobs:
        out.append(fixed(c.rng, routes, ["/" + t for t in ts]))
    return out


def fixed(rng, routes, paths):
    w = World()
    for n, (typ, k, _) in PARS.items():
        if n not in ("string", "integer", "float", "boolean"):
            w.parser(n, typ, **k)
    for j, (segs, ps) in enumerate(routes):
        rows = {}
        for t in paths:
            for cap in cuts(segs, t, ps):
                last = dict(cap)
                if ps and all(plausible(ps[n], v) and v != "" for n, v in last.items()):
                    rows[tuple(last[n] for n in ps)] = 1
        rows = list(rows)
        rng.shuffle(rows)
        w.csv("i%d" % j, [("id", "integer")] + [(n, ps[n]) for n in ps], [[str(i)] + list(r) for i, r in enumerate(rows[:50])] or [["0"]])
        w.output("o%d" % j, "array", "i%d" % j, {n: (n, "default", ps[n]) for n in ps})
        w.route("o%d" % j, *segs)
    return w, [Req(t) for t in paths]


def wide(rng, nroutes=6, long=2500):
    """Routes of many parameters, and texts longer than any buffer in the path and in the query."""
    kinds = {"string": ["a", "b c", "é", "1"], "integer": ["1", "-2", "30"], "boolean": ["true", "false"], "float": ["1.5", "2"]}
    w = World()
    reqs = []
    for j in range(nroutes):
        n = rng.randint(5, 9) if j % 2 == 0 else rng.randint(10, 14)
        ps = {"p%02d" % k: rng.choice(["integer", "integer", "boolean", "string", "float"]) for k in range(n)}
        order = list(ps)
        rng.shuffle(order)
        segs = ["/w%d/" % j]
        for k in order:
            segs += [(k,), rng.choice(["/", "/", "/x/", "//"])]
        base = [rng.choice(kinds[ps[k]]) for k in ps]
        rows = [base]
        for i in range(n):   # the same but for one value
            rows.append([rng.choice([v for v in kinds[ps[k]] if v != base[i]]) if i == z else base[z] for z, k in enumerate(ps)])
        w.csv("i%d" % j, [("id", "integer")] + [(k, ps[k]) for k in ps], [[str(i)] + r for i, r in enumerate(rows)])
        w.route(w.output("o%d" % j, rng.choice(["array", "object"]), "i%d" % j, {k: (k, "default", ps[k]) for k in ps}), *segs)
        for r in rows + [list(rng.choice(rows)) for _ in range(3)]:
            vals = dict(zip(ps, r))
            t = "".join(vals[s[0]] if isinstance(s, tuple) else s for s in segs)
            reqs.append(Req(t, [(rng.choice(order), "1")] if rng.random() < 0.3 else []))
            if rng.random() < 0.3:
                reqs.append(Req(t[:-1]))
    texts = ["%s%s" % (ch * long, e) for ch in "aé" for e in ("", "b")] + ["a" * k for k in (255, 256, 1023, 1024, 2047, 2048, 2049)]
    w.csv("long", [("id", "integer"), ("s", "string"), ("n", "integer")], [[str(i), t, str(i % 3)] for i, t in enumerate(texts)])
    w.index("ml", "map", "long", ["s"])
    w.route(w.output("l", "array", "long", {"s": ("s", "default", "string"), "t": ("s", "ml", "string"), "n": ("n", "default", "integer")}), "/l/", ("s",), "/", ("n",))
    w.route(w.output("l2", "array", "long", {"s": ("s", "default", "string"), "t": ("s", "ml", "string"), "n": ("n", "default", "integer")}), "/l2")
    for i, t in enumerate(texts + ["b" * long]):
        reqs.append(Req("/l2", [(rng.choice("st"), t)]))
        reqs.append(Req("/l2", [("n", str(i % 3)), ("other", "z" * long), ("s", t)]))
        if len(t) < 1500 or i % 4 == 0:
            reqs.append(Req("/l/%s/%d" % (t, i % 3)))
    w.csv("many", [("id", "integer")] + [("q%d" % k, "string") for k in range(20)], [[str(i)] + ["y" if i != k else "n" for k in range(20)] for i in range(21)])
    w.route(w.output("m", "array", "many", {"q%d" % k: ("q%d" % k, "default", "string") for k in range(20)}, ldef=50), "/m")
    for k in range(21):   # many parameters at once, all but one of them giving the record
        reqs.append(Req("/m", [("q%d" % z, "y" if z != k else rng.choice("yn")) for z in rng.sample(range(20), rng.choice([20, 20, 18, 10]))] + [("x%d" % z, "") for z in range(rng.choice([0, 60]))]))
    return w, reqs


def run(c):
    good = {"Alphabet": "{97,46,49,45}", "MaxSegs": "3", "MaxPath": "5" if THOROUGH else "4", "Backtrack": "TRUE", "WholePath": "TRUE", "QuoteLit": "TRUE"}
    c.design("RouteCases", good, [{"Backtrack": "FALSE"}, {"WholePath": "FALSE"}, {"QuoteLit": "FALSE"}], {"MaxPath": "4"})
    jobs = enumerated(c)
    for n, p in ([(4, 120), (8, 250), (8, 250), (15, 250), (15, 250), (25, 300), (3, 150)] if not THOROUGH else [(4, 100), (8, 300), (8, 300), (8, 300), (15, 300), (15, 300), (25, 300), (40, 400), (40, 400)]):
        jobs.append(make(c.rng, n, p))
    jobs += [wide(c.rng) for _ in range(1 if not THOROUGH else 4)]
    c.run_jobs(jobs)
    c.validate()
