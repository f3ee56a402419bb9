"""Q02: a wildcard index returns exactly the records containing the text."""
TECHNIQUE = 'TLA+ suffix-tree model exhausted by TLC; answers of the real server validated by TLC'
NOTE = 'SuffixTree (the algorithm) checked for all sequences of short texts over a small alphabet, with refuted variants; the same spaces of texts are indexed by rodb and every substring asked, plus long repetitive texts; each answer must be the one RodbQuery allows.'
import itertools
from gen import *


def texts(alpha, n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k)]


def exhaustive(c, alpha, n, recs, per_input, qn, queries_per_column):
    """Every sequence of `recs` texts of at most n letters, one column each."""
    cases = list(itertools.product(texts(alpha, n), repeat=recs))
    c.rng.shuffle(cases)
    qs = texts(alpha, qn)
    w = World()
    plan = []
    for k in range(0, len(cases), per_input):
        part = cases[k:k + per_input]
        name = "i%d" % k
        cols = [("c%d" % j, "string") for j in range(len(part))]
        rows = [[str(r + 1)] + [t[r] for t in part] for r in range(recs)]
        w.csv(name, [("id", "integer")] + cols, rows)
        icase = bool(k // per_input % 2)
        w.index("w" + name, "wildcard", name, [n for n, _ in cols], icase=icase)
        out = w.output("o" + name, "array", name, {n: (n, "w" + name, "string") for n, _ in cols})
        w.route(out)
        for n_, _ in cols:
            for q_ in (qs if queries_per_column is None else c.rng.sample(qs, queries_per_column)):
                plan.append(Req("/" + out, [(n_, q_)]))
        if len(w.W["inputs"]) == 90:
            yield w, plan
            w, plan = World(), []
    if plan:
        yield w, plan


def mutate(rng, s, alpha):
    if not s:
        return rng.choice(alpha)
    a = rng.randrange(len(s))
    b = rng.randint(a, min(len(s), a + rng.choice([1, 2, 3, 6, 40])))
    q = s[a:b]
    x = rng.random()
    if x < 0.25:
        q += rng.choice(alpha)
    elif x < 0.35 and q:
        i = rng.randrange(len(q))
        q = q[:i] + rng.choice(alpha) + q[i + 1:]
    elif x < 0.45:
        q = q.swapcase()
    elif x < 0.5:
        q = rng.choice(alpha) + q
    return q


def random_world(c, n, length, alpha, nreq):
    rng = c.rng
    w = World()
    w.parser("list", "split", delim="|", parser="string")
    def text():
        x = rng.random()
        if x < 0.08:
            return ""
        s = "".join(rng.choice(alpha) for _ in range(rng.randint(1, length)))
        if x < 0.3:
            s = (s[:rng.randint(1, 4)] * length)[:rng.randint(1, length)]
        return s
    pool = [text() for _ in range(max(2, n * 2 // 3))]
    pick = lambda: rng.choice(pool) if rng.random() < 0.4 else text()
    rows = [[str(i + 1), pick(), pick(), "|".join(pick() for _ in range(rng.randint(1, 3)))] for i in range(n)]
    w.csv("i", [("id", "integer"), ("t", "string"), ("u", "string"), ("l", "list")], rows, rng=rng)
    recs = [{"id": int(r[0]), "t": r[1], "o": {"u": r[2]}, "l": r[3].split("|") if rng.random() < .8 else [[r[1], []], r[2]]} for r in rows]
    w.json("j", recs, rng=rng)
    for kind, props in (("i", ["t", "u", "l"]), ("j", ["t", "o.u", "l"])):
        ps = {}
        for ic in (False, True):
            ix = w.index("w%s%d" % (kind, ic), "wildcard", kind, props, icase=ic)
            for p in props:
                ps["%s_%d" % (safe(p), ic)] = (p, ix, "string")
        ps["id"] = ("id", "default", "integer" if kind == "i" else "float")
        w.route(w.output("o" + kind, "array", kind, ps, ldef=1000))
    reqs = []
    for _ in range(nreq):
        kind = rng.choice("ij")
        ps = list(w.W["outputs"]["o" + kind]["params"])
        r = rng.choice(rows)
        def val(p):
            if p == "id":
                return rng.choice(rows)[0]
            s = r[{"t": 1, "u": 2, "o": 2, "l": 3}[p[0]]]
            return mutate(rng, s, alpha)
        k = rng.choice([1, 1, 1, 2, 2, 3])
        reqs.append(Req("/o" + kind, [(p, val(p)) for p in rng.sample(ps, k)]))
    reqs += [Req("/oi", [("t_0", "")]), Req("/oi", [("t_1", ""), ("u_1", "a")])]
    return w, reqs


def long_world(c, n, length):
    """Texts longer than the buffers, sharing long parts."""
    rng = c.rng
    w = World()
    shared = "".join(rng.choice("abcdefgh ") for _ in range(length))
    rows = []
    for i in range(n):
        a = rng.randrange(length // 2)
        own = "".join(rng.choice("abcdefgh ") for _ in range(rng.choice([0, 1, 50, length // 2])))
        rows.append([str(i + 1), rng.choice([own + shared[a:], shared[:a] + own + shared[a:], shared[a:] + own])])
    w.csv("i", [("id", "integer"), ("t", "string")], rows)
    w.route(w.output("o", "array", "i", {"t": ("t", w.index("w", "wildcard", "i", ["t"]), "string")}, ldef=1000))
    reqs = []
    for _ in range(30):
        t = rng.choice(rows)[1]
        a = rng.randrange(len(t))
        q = t[a:a + rng.choice([3, 20, 1000, 4000, 4097, 5000])]
        if len(q) > 3 and rng.random() < 0.6:   # one letter changed, most often far from the start
            i = rng.choice([len(q) - 1, len(q) - 1, rng.randrange(len(q))])
            q = q[:i] + rng.choice("abcdefghz") + q[i + 1:]
        reqs.append(Req("/o", [("t", q)]))
    return w, reqs


def run(c):
    good = {"Alphabet": "{1,2}", "MaxLen": "3", "MaxRecords": "3", "CopyOnSplit": "TRUE", "DedupLast": "TRUE", "CheckTail": "TRUE"}
    c.design("SuffixTree", good, [{"CopyOnSplit": "FALSE"}, {"DedupLast": "FALSE"}, {"CheckTail": "FALSE"}], {"MaxRecords": "2"})
    c.design("BufferedStream", {"MaxBuffer": "3", "MaxSize": "8", "Chunk": "3", "MaxWrites": "5", "SplitReplace": "TRUE"}, [{"SplitReplace": "FALSE"}])
    if THOROUGH:
        c.model("SuffixTree", constants={**good, "MaxLen": "4", "MaxRecords": "3"}, timeout=800)
        c.model("SuffixTree", constants={**good, "Alphabet": "{1,2,3}", "MaxLen": "3", "MaxRecords": "2"}, timeout=800)
    plans = list(exhaustive(c, "ab", 2, 3, 25, 3, 4) if not THOROUGH else exhaustive(c, "ab", 2, 3, 25, 3, None))
    if THOROUGH:
        plans += list(exhaustive(c, "ab", 3, 2, 25, 4, None)) + list(exhaustive(c, "éè", 2, 2, 25, 2, None))
    plans += list(exhaustive(c, "éè", 1, 3, 25, 2, 3))
    A1, A2, A3 = list("ab"), list("abAéèÉ"), list("abcdefghijABCDEFGHIJ éàÉ日本語")
    for n, ln, al, nr in [(12, 8, A1, 120), (20, 12, A2, 150), (40, 40, A3, 120), (30, 200, A2, 80)] + (
            [(60, 30, A1, 400), (100, 60, A3, 300), (25, 500, A2, 100), (8, 3000, A1, 60), (200, 12, A2, 400)] if THOROUGH else []):
        plans.append(random_world(c, n, ln, al, nr))
    plans += [long_world(c, n, ln) for n, ln in ([(5, 9000)] if not THOROUGH else [(5, 9000), (4, 40000), (12, 20000), (3, 70000)])]
    for w, reqs in plans:
        if not c.boot(w):
            continue
        with w.server:
            wl = c.use_world(w)
            c.ask_all(w, wl, reqs, threads=3)
        c.validate()
    w, reqs = scale(c.rng, 70000 if THOROUGH else 15000, ("wildcard",))
    if c.boot(w):
        with w.server:
            c.ask_all(w, c.use_world(w), reqs, threads=2)
        c.validate()
