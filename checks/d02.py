"""D02: JSON files are delivered faithfully."""
TECHNIQUE = 'TLA+ grammar of concatenated JSON objects and model of the reader exhausted by TLC; token sequences and seeded documents served by the real program and validated against it'
NOTE = 'JsonReader (scan noting places, then direct reads) exhausted over all small texts with refuted variants. On rodb, files made of enumerated token sequences, mutated and cut documents, and seeded larger ones (nesting, escapes, numbers, duplicated names, white space, sizes beyond the buffers) are read by the grammar of JsonFraming in TLC, and the answers must be its records, or errors where it calls the file malformed. A bare top-level null is left out: the statement speaks of objects.'
import itertools, json
from gen import *

TOK = ["{", "}", '"a"', ":", ",", "1", "[", "]", " "]


def token_texts(c):
    """All the short token sequences which start like an object, then sampled longer ones built around valid ones."""
    rng = c.rng
    out = set()
    for n in range(0, 5):
        for t in itertools.product(TOK, repeat=n):
            if n <= 2 or (t[0] == "{" and (n == 3 or rng.random() < (0.6 if THOROUGH else 0.25))):
                out.add("".join(t))
    docs = ["{}", '{"a":1}', '{"a":{}}', '{"a":[]}', '{"a":[1]}', '{"a":"1"}', '{"a":1,"a":2}', '{"a":1,"b":[{},1]}', '{"a":true}', '{"a":null}', '{"":0}']
    toks = TOK + ['"', "true", "null", "-", ".", "e", "\\", "0", "\n", "x", "\ufeff", "/**/"]
    for _ in range(2500 if THOROUGH else 500):
        t = "".join(rng.choice(docs) + rng.choice(["", "", " ", "\n", "\r\n\t "]) for _ in range(rng.randint(1, 3)))
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            i = rng.randrange(len(t) + 1)
            k = rng.choice(["del", "ins", "cut", "dup"])
            if k == "del":
                t = t[:i] + t[i + 1:]
            elif k == "ins":
                t = t[:i] + rng.choice(toks) + t[i:]
            elif k == "cut":
                t = t[:i]
            else:
                j = rng.randrange(len(t) + 1)
                t = t[:i] + t[min(i, j):max(i, j)] + t[i:]
        out.add(t)
    return sorted(t for t in out if not bare_null(t))


def bare_null(t):
    """Does a top-level null occur where an object is expected?  Such files are not specified."""
    d = json.JSONDecoder()
    i = 0
    while True:
        while i < len(t) and t[i] in " \t\r\n":
            i += 1
        if t[i:i + 4] == "null":
            return True
        try:
            v, i = d.raw_decode(t, i)
        except ValueError:
            return False


NUMBERS = ["0", "-0", "1", "-1", "12.5", "0.125", "1e3", "1E+2", "15e-1", "2.50", "100000", "-7.001", "1.5e2", "0e5", "0.0", "1e21", "123456789012345", "-1.25e-7", "0.1", "9007199254740992", "1e308", "1e-300", "1e-999", "0.00000000000001e5", "1000000", "999999.9995", "1e-4"]
BADNUM = ["01", "+1", "1.", ".5", "1e", "--1", "0x1", "1_0", "NaN", "Infinity", "-", "1e+", "1e309", "-1e999"]
STRINGS = ['""', '"a"', '"\\n\\t\\r\\b\\f"', '"\\"\\\\\\/"', '"\\u0041\\u00e9"', '"\\ud83d\\ude00"', '"\\ud800"', '"\\ude00x"', '"\\ud83dx"', '"é日😀"', '"\\u0000"', '"a.b"', '" "', '"{}"', '"]}\\"{"', '"\u2028"', '"\\u2028"', '"<&>"']
BADSTR = ['"\\x"', '"\\u12"', '"a', "'a'", '"\n"', '"\\']
KEYS = ["a", "b", "a.b", "", "é", "x y", "A", '\\"', "\\u0061", "0", "id"]


def ws(rng):
    return rng.choice(["", "", "", " ", "\n", "\t", "\r\n", "  \n "])


def value(rng, depth, bad, big):
    z = rng.random()
    if bad and z < 0.03:
        return rng.choice(BADNUM + BADSTR + ["tru", "nul", "True", "[1,]", "{,}", "[", "{\"a\"}"])
    if depth > 0 and z < 0.25:
        ks = [rng.choice(KEYS) for _ in range(rng.randint(0, 4))]
        return "{" + ws(rng) + ",".join('%s"%s"%s:%s%s' % (ws(rng), k, ws(rng), ws(rng), value(rng, depth - 1, bad, big) + ws(rng)) for k in ks) + "}"
    if depth > 0 and z < 0.4:
        return "[" + ws(rng) + ",".join(ws(rng) + value(rng, depth - 1, bad, big) + ws(rng) for _ in range(rng.randint(0, 4))) + "]"
    if z < 0.6:
        return rng.choice(NUMBERS)
    if z < 0.9:
        if big and rng.random() < 0.15:
            return '"' + rng.choice(["x", "é", "\\n", "{", "}"]) * rng.randint(big // 2, big) + '"'
        return rng.choice(STRINGS)
    return rng.choice(["true", "false", "null"])


def document(rng, n, bad, big):
    t = ws(rng)
    for i in range(n):
        ms = ['"id":%s%d' % (ws(rng), i + 1)] + ['"kk":%s"%s"' % (ws(rng), rng.choice("yyyz"))] * (rng.random() < 0.9) + ['"%s"%s:%s' % (k, ws(rng), value(rng, 3, bad, big)) for k in rng.sample(KEYS[:-1], rng.randint(0, 5))]
        rng.shuffle(ms)
        t += "{" + ws(rng) + ("," + ws(rng)).join(ms) + ws(rng) + "}" + rng.choice(["\n", "\n", "", " ", "\r\n\r\n", "\t", " " * rng.choice([1, 600, 5000]) if big else " "])
    if bad and rng.random() < 0.4 and t:
        t = t[:rng.randrange(len(t))]
    return t


def small_worlds(c, texts):
    jobs = []
    for b in range(0, len(texts), 40):
        w = World()
        reqs = []
        for i, t in enumerate(texts[b:b + 40]):
            w.jsontext("i%d" % i, t)
            w.route(w.output("o%d" % i, "array", "i%d" % i))
            reqs.append(Req("/o%d" % i))
            if c.rng.random() < 0.3:
                reqs.append(Req("/o%d" % i, [("limit", "1"), ("offset", c.rng.choice(["0", "1"]))]))
        jobs.append((w, reqs))
    return jobs


def big_worlds(c, n, big):
    rng = c.rng
    w = World()
    w.csv("all", [("kk", "string")], [["y"], ["z"]])
    reqs = []
    for k in range(8):
        w.jsontext("i%d" % k, document(rng, n, k % 2 == 1, big))
        w.route(w.output("o%d" % k, "array", "i%d" % k, {"id": ("id", "default", "float")}, ldef=1000))
        w.route(w.output("b%d" % k, "object", "i%d" % k, {"id": ("id", "default", "float")}))
        w.route(w.output("r%d" % k, "array", "all", rels={"r": rel("i%d" % k, [("kk", "kk", "default")], isArray=True, limit=rng.choice([0, 0, 2, n]))}))
        reqs += [Req("/r%d" % k), Req("/r%d" % k, [("limit", "1"), ("offset", "1")])]   # several records held at once
        reqs.append(Req("/o%d" % k))
        for i in rng.sample(range(n + 2), min(n, 4 if big else 10)):
            reqs += [Req("/o%d" % k, [("limit", "1"), ("offset", str(i))]), Req("/b%d" % k, [("id", str(i))])]
    rng.shuffle(reqs)
    return w, reqs


def indexed(c):
    rng = c.rng
    w = World()
    w.jsontext("i", rng.choice(['{"a":"x"}{"a":"y"}', '{"a":"x"}\n{"a":', '{"a":"x"}{"b":1}', '{"a":"x"}}', '{"a":"x"},{"a":"y"}', '[{"a":"x"}]', '', '{"a":"x"}{"a":"x"}]', '{"a":"x"} 1', '{"a":["x","y"]}{"a":"x"}']))
    kind = rng.choice(["map", "sqlite", "fts5", "wildcard"])
    w.index("x", kind, "i", ["a"])
    w.route(w.output("o", "array", "i", {} if kind == "fts5" else {"p": ("a", "x", "string")}))
    return w, [Req("/o")] + ([Req("/o", [("p", v)]) for v in "xyz"] if kind != "fts5" else [])


def run(c):
    good = {"MaxLen": "8" if THOROUGH else "7", "Chunk": "2", "InputOffset": "TRUE", "EndIsNoMore": "FALSE"}
    c.design("JsonReader", good, [{"InputOffset": "FALSE"}, {"EndIsNoMore": "TRUE"}], {"MaxLen": "5"})
    jobs = small_worlds(c, token_texts(c))
    for n, big in ([(3, 0), (15, 0), (10, 5000)] if not THOROUGH else [(1, 0), (3, 0), (8, 0), (15, 0), (30, 0), (10, 5000), (6, 20000), (40, 500)]):
        jobs.append(big_worlds(c, n, big))
    jobs += [indexed(c) for _ in range(24 if not THOROUGH else 100)]
    c.cov["files"] = sum(len(w.cfg["inputs"]) for w, _ in jobs)
    c.run_jobs(jobs)
    c.validate()
