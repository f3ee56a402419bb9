"""D03: XML files are delivered faithfully."""
TECHNIQUE = 'TLA+ model of the streaming reader exhausted by TLC; selection and property values of real documents validated by TLC against the document tree'
NOTE = 'XmlReader (streaming scan, noted places, direct reads with the open tags put back) exhausted over all small documents and four kinds of paths, with refuted variants. On rodb, seeded documents (nesting, several parents, attributes, entities, CDATA, comments, processing instructions, white space, mixed content, sizes beyond the buffers) are given to TLC as trees: the selected elements and the values of their properties (text, number, boolean, count, arrays, objects) must be those of the specification, scanned, paged, filtered and through indexes. An element inside a selected element is part of it.'
from gen import *

NAMES = ["a", "b", "item", "Name", "N", "g", "ns-x", "é"]
TEXTS = ["", "x", "A b", " lead", "trail ", "<&>\"'", "é日😀", "]]>", "1", "2.5", "-3", " 7 ", "abc", "true", "l1\nl2", "\t", "0", "1e3x", "&amp;", "--", "{}", "\u00a0"]
NUMT = ["0", "1", "2", "-3", "2.5", " 7 ", "abc", "", "12", "0.5", "-0.5", "2147483648", "-5000000001", "123456789012", "4294967297.5", "-0.0004", "1234567.875"]


def rtext(rng, s):
    """One of the ways of writing a text."""
    out = ""
    i = 0
    while i < len(s):
        j = i + rng.randint(1, 4)
        part = s[i:j]
        z = rng.random()
        if z < 0.15 and "]]>" not in part and "\r" not in part:
            # cut so that no "]]>" arises across sections
            out += "<![CDATA[" + part + "]]>"
        elif z < 0.3:
            out += "".join("&#%s;" % (ord(ch) if rng.random() < 0.5 else "x%x" % ord(ch)) for ch in part)
        else:
            out += part.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
        if rng.random() < 0.08:
            out += rng.choice(["<!-- c -->", "<!--<item>no</item>-->", "<!---->"])
        i = j
    return out


def rattr(rng, k, v):
    qt = rng.choice(['"', '"', "'"])
    v = v.replace("&", "&amp;").replace("<", "&lt;").replace(qt, "&quot;" if qt == '"' else "&apos;").replace("\n", "&#10;").replace("\t", "&#9;")
    return "%s%s=%s%s%s" % (rng.choice([" ", " ", "\n "]), k, qt, v, qt)


def render(rng, e):
    if e["n"] == "#text":
        return rtext(rng, "".join(map(chr, e["t"])))
    s = "<" + e["n"] + "".join(rattr(rng, k, "".join(map(chr, v))) for k, v in e["a"].items()) + rng.choice(["", "", " "])
    body = rtext(rng, "".join(map(chr, e["t"]))) + "".join(render(rng, c) for c in e["c"])
    if not body and rng.random() < 0.6:
        return s + "/>"
    return s + ">" + body + "</" + e["n"] + rng.choice(["", "", " "]) + ">"


def txt(s):
    return elem("#text", t=s)


def attrs(rng, k):
    return {a: rng.choice(["k1", "k2", "", "x y", "<&'\">", "é", "1", "2.5", "l\nl"]) for a in rng.sample(["k", "id", "A", "x"], k)}


def subtree(rng, depth, names, big):
    """Anything below a record."""
    n = rng.choice(names)
    t = rng.choice(TEXTS if rng.random() < 0.6 else NUMT)
    if big and rng.random() < 0.05:
        t = t + rng.choice(["z", "é", "<", "]]"]) * rng.randint(big // 2, big)
    cs = []
    if depth and n not in ("N", "a"):   # these are read as numbers, which the specification has to three decimals
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            cs.append(subtree(rng, depth - 1, names, big))
            if rng.random() < 0.3:
                cs.append(txt(rng.choice(TEXTS)))
    return elem(n, attrs(rng, rng.choice([0, 0, 1, 2])), t, cs)


def filler(rng):
    return txt(rng.choice(["", "\n", "\n  ", " ", "junk", "\t"]))


SELS = ["/root/item", "//item", "/root/g/item", "//g/item", "/root/*/item", "//g[@k='k1']/item", "//item[@k]", "//item[@k='k2']", "/root//item", "//g//item", "/root/g[@k='k1']/item[@id]", "//*/item", "/root/*"]


def parse_sel(t):
    sel = []
    for p in t.replace("//", "/^").split("/")[1:]:
        d = p.startswith("^")
        p = p.lstrip("^")
        a, v = "", None
        if "[" in p:
            p, pr = p[:-1].split("[@")
            a, v = (pr.split("=")[0], pr.split("=")[1].strip("'")) if "=" in pr else (pr, None)
        sel.append((d, p, a, v))
    return sel


def item(rng, i, names, big, nested):
    """A record: an id, then anything, possibly with nested items."""
    cs = [elem("Id", t=str(i))] + [subtree(rng, 2, names, big) for _ in range(rng.randint(0, 4))]
    if rng.random() < 0.6:
        cs.append(elem("Sub", attrs(rng, 1), rng.choice(TEXTS), [subtree(rng, 1, names, 0) for _ in range(rng.randint(0, 2))]))
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        cs.append(elem("L", {"v": rng.choice(NUMT)}, rng.choice(NUMT), [elem("M", t=rng.choice(["1", "0"] if rng.random() < 0.3 else TEXTS[:8] + TEXTS[12:])) for _ in range(rng.randint(0, 2))]))
    if nested and rng.random() < 0.3:
        cs.append(elem("item", {"k": "k1", "id": "9"}, c=[elem("Id", t="99")]))
    rng.shuffle(cs)
    out = []
    for x in cs:
        out += [x] + ([filler(rng)] if rng.random() < 0.4 else [])
    return elem("item", attrs(rng, rng.choice([0, 1, 2])), rng.choice(["", "", "t", "\n "]), out)


def doc(rng, n, big, nested):
    names = ["a", "b", "Name", "N"]
    root = elem("root", attrs(rng, 1))
    left = list(range(1, n + 1))

    def fill(e, depth):
        for _ in range(rng.randint(1, 6)):
            if not left:
                return
            z = rng.random()
            if z < 0.5:
                e["c"].append(item(rng, left.pop(0), names, big, nested))
            elif z < 0.75 and depth < 4:
                g = elem(rng.choice(["g", "g", "h"]), attrs(rng, rng.choice([0, 1, 1])))
                e["c"].append(g)
                fill(g, depth + 1)
            elif z < 0.85:
                e["c"].append(subtree(rng, 1, names, 0))
            e["c"].append(filler(rng))
    while left:
        fill(root, 1)
    return root


def prolog(rng):
    return rng.choice(["", '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>\n', '<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n<!-- head <item/> -->\n', "<!DOCTYPE root>\n", "\n"])


def props(rng):
    P = [{"name": "id", "x": X("number", "Id"), "parser": "integer"},
         {"name": "all", "x": X("string")},
         {"name": "sub", "x": X("string", "Sub")},
         {"name": "suba", "x": X("string", "Sub", attr="k")},
         {"name": "k", "x": X("string", attr="k")},
         {"name": "hask", "x": X("boolean", attr="k"), "parser": "boolean"},
         {"name": "num", "x": X("number", "N"), "parser": rng.choice(["float", "integer"])},
         {"name": "numi", "x": X("number", "N"), "parser": "integer"},
         {"name": "nums", "type": "array", "x": X("nodes", "N"), "items": {"x": X("number"), "parser": "integer"}},
         {"name": "numl", "x": X("number", "L", attr="v"), "parser": "float"},
         {"name": "cl", "x": X("count", "L"), "parser": rng.choice(["float", "integer"])},
         {"name": "clm", "x": X("count", "L", "M"), "parser": "integer"},
         {"name": "any", "x": X("count", "*"), "parser": "integer"},
         {"name": "hasl", "x": X("boolean", "L", "M"), "parser": "boolean"},
         {"name": "ls", "type": "array", "x": X("nodes", "L"), "items": {"x": X("number"), "parser": "float"}},
         {"name": "lv", "type": "array", "x": X("nodes", "L"), "items": {"x": X("string", attr="v")}},
         {"name": "lm", "type": "array", "x": X("nodes", "L"), "items": {"type": "array", "x": X("nodes", "M"), "items": {"x": X("string")}}},
         {"name": "lo", "type": "array", "x": X("nodes", "L"), "items": {"type": "object", "x": X("nodes"), "props": [{"name": "v", "x": X("string", attr="v")}, {"name": "t", "x": X("string")}, {"name": "c", "x": X("count", "M"), "parser": "integer"}]}},
         {"name": "o", "type": "object", "x": X("nodes", "Sub"), "props": [{"name": "t", "x": X("string")}, {"name": "n", "x": X("number", "a"), "parser": "float"},
                                                                          {"name": "in", "type": "object", "x": X("nodes", "b"), "props": [{"name": "s", "x": X("string", "a")}]}]},
         {"name": "many", "type": "object", "x": X("nodes", "a"), "props": [{"name": "t", "x": X("string")}]},
         {"name": "int", "x": X("string", "N"), "parser": "integer"},
         {"name": "sp", "x": X("string", "Name"), "parser": "words"}]
    fixed, rest = P[:1] + [p for p in P if p["name"] == "numi"], [p for p in P[1:] if p["name"] != "numi"]
    risky = {"many", "int"}   # may well fail, which must give an error
    chosen = [p for p in rest if p["name"] not in risky and rng.random() < 0.6] + [p for p in rest if p["name"] in risky and rng.random() < 0.15]
    rng.shuffle(chosen)
    return fixed + chosen


def plan(c, n, big):
    rng = c.rng
    w = World()
    w.parser("words", "split", delim=" ", parser="string")
    w.csv("all", [("k", "string")], [["k1"], ["k2"], [""]])
    reqs = []
    for k in range(10):
        sel = rng.choice(SELS)
        if k < 4:
            sel = SELS[(c.count + k) % len(SELS)]
        root = doc(rng, n, big, True)
        P = props(rng)
        text = prolog(rng) + render(rng, root) + rng.choice(["", "\n", "<!-- end -->"])
        w.xmldoc("i%d" % k, P, root, parse_sel(sel), text)
        pn = [p for p in P if p["name"] in ("k", "suba", "sub")]
        params = {"id": ("id", "default", "integer")}
        if pn:
            params["s"] = (pn[0]["name"], "default", "string")
        for p in P:
            if p["name"] == "lo":
                params["l0"] = ("lo.0.v", "default", "string")
            if p["name"] == "lm":
                params["m01"] = ("lm.0.1", "default", "string")
            if p["name"] == "o":
                params["ot"] = ("o.t", "default", "string")
        w.route(w.output("o%d" % k, "array", "i%d" % k, params, ldef=1000))
        w.route(w.output("b%d" % k, "object", "i%d" % k, {"id": ("id", "default", "integer")}))
        reqs.append(Req("/o%d" % k))
        if "k" in [p["name"] for p in P]:
            w.route(w.output("r%d" % k, "array", "all", rels={"r": rel("i%d" % k, [("k", "k", "default")], isArray=True, limit=rng.choice([0, 0, 2, n]))}))
            reqs += [Req("/r%d" % k), Req("/r%d" % k, [("limit", "1"), ("offset", "1")])]   # several records held at once
        for i in rng.sample(range(n + 2), min(n, 7)):
            reqs += [Req("/o%d" % k, [("limit", "1"), ("offset", str(i))]), Req("/b%d" % k, [("id", str(i))])]
        for p in params:
            if p != "id":
                reqs += [Req("/o%d" % k, [(p, rng.choice(["k1", "k2", "x", "1", "", "2.5", "0"]))]) for _ in range(2)]
    rng.shuffle(reqs)
    c.count += 4
    return w, reqs


def indexed(c, n):
    """The same through indexes built on the records."""
    rng = c.rng
    w = World()
    root = doc(rng, n, 0, True)
    sel = rng.choice(SELS[:7])
    w.xmldoc("i", [{"name": "id", "x": X("number", "Id"), "parser": "integer"}, {"name": "k", "x": X("string", attr="k")}, {"name": "s", "x": X("string", "Sub")}],
             root, parse_sel(sel), prolog(rng) + render(rng, root))
    w.index("m", "map", "i", ["id", "k"])
    w.index("q", "sqlite", "i", ["id", "k", "s"])
    w.index("w", "wildcard", "i", ["k", "s"])
    w.route(w.output("o", "array", "i", {"mk": ("k", "m", "string"), "qi": ("id", "q", "integer"), "qk": ("k", "q", "string"), "ws": ("s", "w", "string"), "wk": ("k", "w", "string")}, ldef=1000))
    reqs = [Req("/o", [(p, v)]) for p, vs in (("mk", ["k1", "k2", "", "x y"]), ("qi", ["0", "1", "3", "99"]), ("qk", ["k1", ""]), ("ws", ["x", "1", " "]), ("wk", ["k", "1"])) for v in vs]
    return w, reqs + [Req("/o"), Req("/o", [("mk", "k1"), ("qk", "k1"), ("wk", "k")])]


def tiny(c, n):
    """Many records of a few bytes, across the ends of every buffer, up to the end of the file."""
    rng = c.rng
    w = World()
    reqs = []
    for k, sep in enumerate(["", "\n"]):
        root = elem("r", c=[elem(rng.choice("ab"), {"k": str(i)} if rng.random() < 0.1 else {}, str(i % 10)) for i in range(n)])
        text = prolog(rng) + "<r>" + sep.join(xml_text(e, rng) for e in root["c"]) + "</r>"
        w.xmldoc("i%d" % k, [{"name": "v", "x": X("string")}, {"name": "k", "x": X("string", attr="k")}], root, parse_sel("/r/*"), text)
        w.index("m%d" % k, "map", "i%d" % k, ["v"])
        w.route(w.output("o%d" % k, "array", "i%d" % k, {"v": ("v", "m%d" % k, "string"), "k": ("k", "default", "string")}, ldef=1, lmax=n))
        reqs += [Req("/o%d" % k, [("limit", str(n))]), Req("/o%d" % k, [("limit", str(n)), ("v", "7")]), Req("/o%d" % k, [("offset", str(n - 1))]), Req("/o%d" % k, [("k", str(n - 1))])]
    return w, reqs


def many(c):
    """Records of hundreds of elements and attributes, and long names."""
    rng = c.rng
    w = World()
    reqs = []
    root = elem("r", c=[elem("item", {"a%d" % k: str(k) for k in range(m)}, c=[elem("Id", t=str(m))] + [elem("L", {"v": str(k % 300)}, "t%d" % k) for k in range(m)]) for m in (0, 1, 7, 31, 64, 65, 127, 128, 129, 255, 256, 257, 400)])
    deep = elem("item", c=[elem("Id", t="500")])
    at = deep
    for k in range(9):
        at["c"].append(elem("x" * (10 * k + 1), t=str(k)))
        at = at["c"][-1]
    root["c"].append(deep)
    P = [{"name": "id", "x": X("number", "Id"), "parser": "integer"}, {"name": "c", "x": X("count", "L"), "parser": "integer"}, {"name": "ls", "type": "array", "x": X("nodes", "L"), "items": {"x": X("string")}},
         {"name": "lv", "type": "array", "x": X("nodes", "L"), "items": {"x": X("number", attr="v"), "parser": "integer"}}, {"name": "a", "x": X("string", attr="a130")}, {"name": "all", "x": X("string")}]
    w.xmldoc("i", P, root, parse_sel("/r/item"), render(rng, root))
    w.index("m", "map", "i", ["id", "ls", "lv"])
    w.route(w.output("o", "array", "i", {"id": ("id", "m", "integer"), "l": ("ls", "m", "string"), "v": ("lv", "m", "integer"), "l128": ("ls.128", "default", "string"), "l10": ("ls.10", "default", "string")}, ldef=1000))
    reqs += [Req("/o"), Req("/o", [("id", "129")]), Req("/o", [("id", "500")])]
    reqs += [Req("/o", [("l", "t%d" % k)]) for k in (0, 30, 64, 127, 128, 129, 256, 399, 400)] + [Req("/o", [("v", str(k))]) for k in (0, 128, 299)]
    return w, reqs + [Req("/o", [("l128", "t128")]), Req("/o", [("l10", "t10")]), Req("/o", [("l128", "t0")])]


def truncated(c):
    """A document cut before its end: never a truncated result."""
    rng = c.rng
    w = World()
    root = doc(rng, 6, 0, False)
    text = render(rng, root)
    cut = text[:rng.randrange(1, max(2, text.rindex("</")))]
    w.xmldoc("i", [{"name": "id", "x": X("number", "Id"), "parser": "integer"}], root, parse_sel("//item"), cut)
    w.route(w.output("o", "array", "i", ldef=1000))
    return w


def positional(c):
    """Known finding: a position among the ancestors in recordXpath."""
    w = World()
    g = [elem("g", c=[elem("item", t="%d%d" % (k, i)) for i in range(2)]) for k in range(3)]
    w.xmldoc("i", [{"name": "v", "x": X("string")}], elem("r", c=[g[1]]), parse_sel("/r/g/item"), xml_text(elem("r", c=g), c.rng))
    w.cfg["inputs"][-1]["recordXpath"] = "/r/g[2]/item"
    w.route(w.output("o", "array", "i"))
    if c.boot(w, key="position-among-ancestors"):
        with w.server:
            c.ask(w, c.use_world(w), Req("/o"), key="position-among-ancestors")


def run(c):
    c.count = 0
    positional(c)
    for p in "1234":
        good = {"MaxLen": "14" if THOROUGH else "12", "Path": p, "OpenTags": '"exact"', "EndsRecord": "TRUE"}
        c.design("XmlReader", good, [{"OpenTags": '"none"'}] + ([{"OpenTags": '"first"'}] if p in "23" else []) + ([{"EndsRecord": "FALSE"}] if p == "4" else []), {"MaxLen": "12"})
    jobs = [plan(c, n, big) for n, big in ([(6, 0), (15, 0), (10, 0), (8, 3000)] if not THOROUGH else [(1, 0), (3, 0), (6, 0), (15, 0), (10, 0), (30, 0), (8, 3000), (12, 6000), (20, 0), (10, 0), (6, 0), (12, 0), (14, 0)])]
    jobs += [indexed(c, n) for n in ([4, 12] if not THOROUGH else [1, 4, 12, 25, 12, 12])]
    jobs += [tiny(c, n) for n in ([1200] if not THOROUGH else [900, 1200, 2500])]
    jobs.append(many(c))
    c.cov["documents"] = sum(len(w.cfg["inputs"]) for w, _ in jobs)
    c.run_jobs(jobs)
    c.validate()
    n = 0
    for _ in range(8 if not THOROUGH else 40):
        w = truncated(c)
        if not c.boot(w, key="truncated"):
            continue
        with w.server:
            r = w.server.get("/o")
            n += 1
            if classify(r)["kind"] != "error" or r.status != 500:
                c.violation("truncated", "a document cut before its end is answered by %r" % r, {"files": read_files(w), "config": w.cfg})
    c.cov["truncated_documents"] = n
    c.traces += n


from check import read_files
