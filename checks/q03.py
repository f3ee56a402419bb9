"""Q03: a full-text index returns exactly the records matching the query."""
TECHNIQUE = 'TLA+ semantics of full-text queries; answers of the real server validated by TLC'
NOTE = 'FullText checked on all small documents and queries with refuted variants; all queries up to a depth over all two-word documents, and random ones over larger worlds, are asked to rodb sequentially and concurrently and must be answered as RodbQuery says, before and after many others.'
import itertools
from gen import *

WORDS = ["a", "b", "ab", "abc", "cafe", "café", "CAFÉ", "Été", "12", "x1", "日本", "日", "zoo"]


def rquery(rng, cols, words, depth):
    x = rng.random()
    if depth == 0 or x < 0.35:
        t = rng.choice(["t", "t", "p", "ph"])
        if t == "ph":
            return ("ph", [codes(rng.choice(words)) for _ in range(rng.randint(1, 3))])
        return (t, codes(rng.choice(words)))
    if x < 0.5:
        return ("c", rng.choice(cols), rquery(rng, [None], words, 0))
    return (rng.choice(["and", "or", "not"]), rquery(rng, cols, words, depth - 1), rquery(rng, cols, words, depth - 1))


BAD = ['"', "(a", "AND", "a AND", "a OR OR b", "nocolumn : a", "a)", "*", "NOT a", 'a "b', "^", "a : : b", "{", "a + ", "", "  "] + ["a%sb" % x for x in "!#$%&',./;<=>?@[]|~`-\\"] + ["%sa" % x for x in "'-;%_$".replace("_", "")] + ["'a'", "a;", "a\x01b", "a -- b", "{a b}", "NEAR(a", "NEAR(a, x)", "a : ", "(a) b)", "()", "\"a\"\"", "a ^", "^^a"]


def world(c, n):
    rng = c.rng
    w = World()
    words = ["a", "b", "ab", "abc", "cafe", "x1", "12", "zoo", "CAFE", "Zoo"]
    seps = [" ", " ", ", ", "-", "\n", " & ", "  ", "'", '"']
    def text(ws):
        s = ""
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
            s += rng.choice(ws) + rng.choice(seps)
        return s
    rows = []
    for i in range(n):
        r = [str(i + 1), text(words + WORDS), text(words), str(rng.choice([12, -12, 0, 7])), rng.choice(["true", "false"])]
        if rng.random() < 0.15:
            r = r[:rng.randint(1, 4)]
        rows.append(r)
    cols = [("id", "integer"), ("t", "string"), ("u", "string"), ("k", "integer"), ("f", "boolean")]
    w.csv("i", cols, rows, rng=rng)
    recs = [{"id": i, "o": {"t": text(words), "l": [text(WORDS)]}} for i in range(n)]
    w.json("j", recs, rng=rng)
    ps, specs = {}, {}
    toks = ["unicode61", "ascii", "unicode61 remove_diacritics 0"]
    for k, (tok, extra) in enumerate([(toks[0], {}), (toks[1], {"prefix": [1, 2]}), (toks[2], {"prefix": [3]}), (toks[0], {"dsn": ":memory:"})]):
        kw = dict(extra)
        if k:
            kw["tokenize"] = tok
        props = [["t", "u", "k", "f"], ["u", "t"], ["t"], ["t", "u"]][k]
        ix = w.index("f%d" % k, "fts5", "i", props, **kw)
        ps["q%d" % k] = ("match", ix, "string")
        specs["q%d" % k] = (props, words if tok == "ascii" else words + WORDS)
    ps["id"] = ("id", "default", "integer")
    w.route(w.output("o", "array", "i", ps, ldef=1000))
    for k in range(4):
        w.route(w.output("first%d" % k, "object", "i", {"q%d" % k: ps["q%d" % k]}))
    ix = w.index("fj", "fts5", "j", ["o.t", "o.l.0"])
    w.route(w.output("oj", "array", "j", {"q": ("match", ix, "string")}))
    specs["q"] = (["o.t", "o.l.0"], words + WORDS)
    return w, ps, specs


def requests(rng, ps, specs, n):
    reqs = []
    for _ in range(n):
        x = rng.random()
        qn = rng.choice(sorted(specs))
        props, words = specs[qn]
        ast = rquery(rng, props, words, rng.choice([0, 1, 1, 2, 3])) if rng.random() < 0.85 else ("bad", rng.choice(BAD))
        if qn == "q":
            reqs.append(Req("/oj", fts={"q": ast}))
        elif x < 0.25:
            reqs.append(Req("/first" + qn[1:], fts={qn: ast}))
        elif x < 0.45:
            q2 = rng.choice([q_ for q_ in specs if q_ not in (qn, "q")])
            reqs.append(Req("/o", fts={qn: ast, q2: rquery(rng, *specs[q2], 1)}))
        elif x < 0.6:
            reqs.append(Req("/o", [("limit", str(rng.randint(1, 3))), ("offset", str(rng.randint(0, 4)))], fts={qn: ast}))
        else:
            reqs.append(Req("/o", [("id", str(rng.randint(1, 12)))] if x > 0.95 else [], fts={qn: ast}))
    return reqs


def enumerated(c, depth):
    """All the documents of at most two words over two terms and two columns; all the queries up to a depth."""
    docs = [" ".join(t) for k in range(3) for t in itertools.product("ab", repeat=k)]
    w = World()
    w.csv("i", [("c1", "string"), ("c2", "string")], [list(p) for p in itertools.product(docs, repeat=2)])
    w.route(w.output("o", "array", "i", {"q": ("match", w.index("f", "fts5", "i", ["c1", "c2"]), "string")}, ldef=1000))
    T = [codes("a"), codes("b")]
    q0 = [("t", t) for t in T] + [("ph", [x, y]) for x in T for y in T]
    q1 = q0 + [("c", k, q_) for k in ("c1", "c2") for q_ in q0] + [(o, x, y) for o in ("and", "or", "not") for x in q0 for y in q0]
    qs = list(q1)
    if depth == 2:
        qs += [(c.rng.choice(["and", "or", "not"]), c.rng.choice(q1), c.rng.choice(q1)) for _ in range(1500)]
    return w, [Req("/o", fts={"q": q_}) for q_ in qs]


def run(c):
    good = {"Terms": '{"a","b"}', "MaxRecords": "3" if THOROUGH else "2", "MaxWords": "2", "Columns": '{"c1","c2"}', "Depth": "1", "Adjacent": "TRUE", "SameColumn": "TRUE"}
    c.design("FullText", good, [{"Adjacent": "FALSE"}, {"SameColumn": "FALSE"}], {"MaxRecords": "2"})
    w, reqs = enumerated(c, 2 if THOROUGH else 1)
    c.rng.shuffle(reqs)
    if c.boot(w):
        with w.server:
            wl = c.use_world(w)
            c.ask_all(w, wl, reqs, threads=2)
    c.validate()
    for it in range(10 if THOROUGH else 2):
        w, ps, specs = world(c, c.rng.choice([8, 15, 30]))
        if not c.boot(w):
            continue
        with w.server:
            wl = c.use_world(w)
            reqs = requests(c.rng, ps, specs, 350 if not THOROUGH else 900)
            half = len(reqs) // 2
            c.ask_all(w, wl, reqs[:half])
            c.ask_all(w, wl, reqs[half:], threads=8)
            c.ask_all(w, wl, c.rng.sample(reqs[:half], 60))   # the same questions again, after all that
        c.validate()
    w, reqs = scale(c.rng, 70000 if THOROUGH else 15000, ("fts5",))
    if c.boot(w):
        with w.server:
            c.ask_all(w, c.use_world(w), reqs, threads=2)
        c.validate()
