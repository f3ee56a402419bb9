"""D01: CSV files are delivered faithfully."""
TECHNIQUE = 'TLA+ automaton of CSV framing, exhausted by TLC; every small text and seeded larger ones served by the real program and validated against it'
NOTE = 'CsvReader (buffered scan noting places, then direct reads) exhausted over all small texts with refuted variants. On rodb, every text up to a bounded length over {a , " LF CR} is a file of its own; its records, read through the scan and directly, must be those of the automaton, files it calls malformed must give errors; plus seeded larger files (delimiters, quoting, line ends, missing and extra cells, parsers, charsets, cells longer than the buffers, autodetection).'
import itertools
from gen import *

ALPHA = 'a,"\n\r'


def small_texts(c):
    n = 6 if THOROUGH else 5
    ts = ["".join(t) for k in range(n) for t in itertools.product(ALPHA, repeat=k)]
    last = ["".join(t) for t in itertools.product(ALPHA, repeat=n)]
    return ts + (last if THOROUGH else c.rng.sample(last, 900))


def batches(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def serve_small(c, texts):
    """One process, one file per text."""
    rng = c.rng
    w = World()
    reqs = []
    for i, t in enumerate(texts):
        ncol = rng.choice([1, 2, 2, 3])
        w.csvtext("i%d" % i, [("c%d" % j, "string") for j in range(ncol)], t, header=rng.random() < 0.3)
        w.route(w.output("o%d" % i, "array", "i%d" % i))
        reqs.append(Req("/o%d" % i))
        if rng.random() < 0.3:
            reqs.append(Req("/o%d" % i, [("limit", "1"), ("offset", rng.choice(["0", "1"]))]))
    return w, reqs


def auto_worlds(c, n):
    """Autodetected columns: one process per text, as a bad header refuses the start."""
    heads = ["a", "a,b", "a,a", ",a", "a,", "", "\n\na,b", '"a,b",c', '"a\nb",c', '"a', 'a"b', '"a"', '""', "a\r", "a,b\r\n", "é,日本", " a,a ", '"q""q",z', "id,Id,ID", "\ufeffa,b"]
    bodies = ["", "\n", "1,2\n", "1,2,3\n4\n", '"x\ny",2\n\n3,4', '1,"2\n', "\r\n1,2\r\n3,4\r\n"]
    combos = [(h, b, k) for h in heads for b in bodies for k in (True, False)]
    c.rng.shuffle(combos)
    out = []
    for h, b, k in combos[:n]:
        w = World()
        w.csvtext("i", [], h + b if b[:1] in ("", "\n", "\r") else h + "\n" + b, header=k, auto=True)
        w.route(w.output("o", "array", "i"))
        out.append((w, [Req("/o"), Req("/o", [("limit", "1")]), Req("/o", [("offset", "1")])]))
    return out


CELLS = ["", "a", "b c", " a", "a ", '"', '""', 'x"y', ",", "x,y", "\n", "l1\nl2", "\r", "a\rb", "é", "日本語", "😀", "\u2028", "\ufeff", "\x01", "tab\there", "'", "\\", "|", ";", "→", "0", "null", "true"]
NUMS = {"integer": ["0", "7", "-1", "+2", "007", "x", "", "1.5", " 1"], "float": ["0", "1.5", "-2.25", ".5", "x", "", "1,5"], "boolean": ["true", "FALSE", "1", "0", "yes", ""]}


def encode(rng, cell, delim, p=0.25):
    need = any(ch in cell for ch in '"\r\n' + delim)
    if need or rng.random() < p:
        return '"' + cell.replace('"', '""') + '"'
    return cell


def big_world(c, n, wide):
    rng = c.rng
    w = World()
    w.parser("lst", "split", delim="/", parser="string")
    w.parser("ils", "split", delim=" ", parser="integer")
    w.parser("eur", "float", sep=",", ignore=" ")
    w.parser("lat", "string", charset=rng.choice(["iso-8859-1", "windows-1252"]))
    w.csv("all", [("k", "string")], [["y"], ["z"]])
    reqs = []
    for k in range(10):
        delim = rng.choice([",", ",", ";", "\t", "|", " ", "→", "é", "😀", "a", "'", "\\"])
        latin = delim.isascii() and rng.random() < 0.3
        eol = rng.choice(["\n", "\n", "\r\n", "mix"])
        kinds = ["lat" if latin else "string", "string" if not latin else "lat", "integer", "float", "boolean", "lst" if not latin else "lat", "ils", "eur"]
        cols = [("id", "integer"), ("k", "string")] + [("c%d" % j, rng.choice(kinds)) for j in range(rng.randint(0, 5))]
        badcells = rng.random() < 0.4
        rows = []
        for i in range(n):
            r = [str(i + 1), rng.choice("yyyz")]
            for _, p in cols[2:]:
                if p in NUMS:
                    ok = NUMS[p][:-3] if p != "boolean" else NUMS[p][:4]
                    r.append(rng.choice(NUMS[p] if badcells and rng.random() < 0.06 else ok))
                elif p == "eur":
                    r.append(rng.choice(["1,5", "1 000,25", "-3", ",5"]))
                elif p == "ils":
                    r.append(rng.choice(["1", "1 2", "3 2 1", "-4 0"]))
                elif p == "lst":
                    r.append(rng.choice(["", "x", "x/y", "/", "x//y", "l1\nl2/z"]))
                else:
                    v = rng.choice(CELLS)
                    if p == "lat":
                        v = "".join(ch if ord(ch) < 256 and not 128 <= ord(ch) < 160 else "ç" for ch in v)
                    if wide and rng.random() < 0.3:
                        v = (v + "xyz")[:rng.randint(1, 4)] * rng.randint(wide // 4, wide)
                    r.append(v)
            z = rng.random()
            if z < 0.08:
                r = r[:rng.randint(1, len(r))]
            elif z < 0.16:
                r += rng.sample(CELLS[:9], 2) if not latin else ["x", ""]
            rows.append(r)
        header = rng.random() < 0.5
        if header:
            rows.insert(0, [rng.choice(["id", "a\nb", "x"])] * rng.randint(1, len(cols) + 1))
        text = ""
        for i, r in enumerate(rows):
            cells = [encode(rng, x, delim) for x in r]
            if cells == [""]:
                cells = ['""']
            text += delim.join(cells)
            if i < len(rows) - 1 or rng.random() < 0.6:
                text += rng.choice(["\n", "\r\n"]) if eol == "mix" else eol
                if rng.random() < 0.05:
                    text += rng.choice(["\n", "\r\n"])
        if rng.random() < 0.2 and text:
            text = text[:rng.randrange(len(text))]   # cut anywhere
        w.csvtext("i%d" % k, cols, text, delim=delim, header=header, charset=w.charsets["lat"] if latin else None)
        w.route(w.output("o%d" % k, "array", "i%d" % k, {"id": ("id", "default", "integer")}, ldef=1000))
        w.route(w.output("b%d" % k, "object", "i%d" % k, {"id": ("id", "default", "integer")}))
        w.route(w.output("r%d" % k, "array", "all", rels={"r": rel("i%d" % k, [("k", "k", "default")], isArray=True, limit=rng.choice([0, 0, 2, n]))}))
        reqs += [Req("/r%d" % k), Req("/r%d" % k, [("limit", "1"), ("offset", "1")])]   # several records held at once
        reqs.append(Req("/o%d" % k))
        for i in rng.sample(range(n + 2), min(n, 12)):
            reqs += [Req("/o%d" % k, [("limit", "1"), ("offset", str(i))]), Req("/b%d" % k, [("id", str(i))])]
        reqs.append(Req("/o%d" % k, [("limit", "3"), ("offset", str(n // 2))]))
    rng.shuffle(reqs)
    return w, reqs


def broad_world(c):
    """Many columns, long names, and columns named like numbers."""
    rng = c.rng
    w = World()
    reqs = []
    for k, m in enumerate((27, 70, 130, 260)):
        names = ["c" * rng.choice([1, 1, 1, 40]) + str(j) for j in range(m)]
        cols = [(x, rng.choice(["string", "string", "integer"])) for x in names]
        rows = [[rng.choice(CELLS[:9]) if p == "string" else str(rng.randint(-99, 99)) for _, p in cols] for _ in range(4)]
        rows[1] = rows[1][:m - 1]
        rows[2] += ["more"]
        auto = k % 2
        text = "".join(",".join(encode(rng, x, ",") for x in r) + "\n" for r in ([names] if auto else []) + rows)
        w.csvtext("i%d" % k, [] if auto else cols, text, header=bool(auto), auto=bool(auto))
        some = rng.sample(range(m), 3) + [m - 1]
        ps = {"p%d" % j: (names[j], "default", "string" if auto else cols[j][1]) for j in some}
        w.route(w.output("o%d" % k, "array", "i%d" % k, ps))
        reqs += [Req("/o%d" % k)] + [Req("/o%d" % k, [("limit", "1"), ("offset", str(i))]) for i in range(4)]
        reqs += [Req("/o%d" % k, [("p%d" % j, rng.choice(rows[:1] + rows[2:])[j])]) for j in some]
    return w, reqs


def indexed_world(c):
    """An index created on a file needs all of it: it must refuse what is malformed or cannot be parsed."""
    rng = c.rng
    w = World()
    cols = [("id", "integer"), ("s", "string")]
    text = rng.choice(["1,a\n2,b\n", "1,a\n2,\n3\n", "1,a\nx,b\n3,c\n", "1,a\n2,\"b\n", "1,a\n2,b\"c\n", "", "\n\n", "1,a,z\r\n2", "1,a\n,b\n", "x,a\n1,b\n"])
    w.csvtext("i", cols, text, header=rng.random() < 0.2)
    kind = rng.choice(["map", "sqlite", "fts5", "wildcard"])
    props = rng.choice([["id"], ["s"], ["id", "s"]]) if kind != "wildcard" else ["s"]
    w.index("x", kind, "i", props)
    ps = {} if kind == "fts5" else {"p": (props[0], "x", "string" if props[0] == "s" else "integer")}
    w.route(w.output("o", "array", "i", ps))
    return w, [Req("/o")] + [Req("/o", [("p", v)]) for v in (("1", "2", "3") if ps and ps["p"][2] == "integer" else ("a", "b", "")) if ps]


def run(c):
    good = {"MaxLen": "8" if THOROUGH else "6", "Chunk": "2", "MinusBuffered": "TRUE", "ResetBuffer": "TRUE"}
    c.design("CsvReader", good, [{"MinusBuffered": "FALSE"}, {"ResetBuffer": "FALSE"}], {"MaxLen": "4"})
    jobs = [serve_small(c, b) for b in batches(small_texts(c), 80)]
    jobs += auto_worlds(c, 60 if not THOROUGH else 280)
    jobs += [indexed_world(c) for _ in range(24 if not THOROUGH else 120)]
    for n, wide in ([(8, 0), (25, 0), (12, 1500)] if not THOROUGH else [(4, 0), (8, 0), (25, 0), (40, 0), (12, 1500), (20, 3000), (60, 300), (8, 6000)]):
        jobs.append(big_world(c, n, wide))
    jobs.append(broad_world(c))
    c.cov["files"] = sum(len(w.cfg["inputs"]) for w, _ in jobs)
    c.run_jobs(jobs)
    c.validate()
