"""D04: answers depend on the data only, not on the requests before or at the same time."""
TECHNIQUE = 'TLA+ model of concurrent reads through a shared reader exhausted by TLC; histories of concurrent requests on the real server (race-detector build too) validated by TLC'
NOTE = 'SharedReader (three clients, seek / fill / decode steps, unreadable records) exhausted for every interleaving, with refuted variants (no lock, buffer kept, shared decoder). On rodb, worlds using every input, parser, index and output, with failing, abandoned and repeated requests, are asked by one client in random orders, then by 8 clients at once, on the ordinary build and on a build with the race detector: every answer must be the one of the specification, the same request always gets the same answer, and the detector must stay silent.'
import socket
from gen import *

L1 = ["", "é", "À la carte", "x", "Ünï", "a,b", "ab", "AB"]


def world(c, n, broken):
    rng = c.rng
    w = World()
    w.parser("list", "split", delim="|", parser="string")
    w.parser("relist", "split", delim="-", regexp="[-]", parser="integer")
    w.parser("l1", "string", charset="iso-8859-1")
    w.parser("yes", "boolean", t=["oui", "o"], f=["non", "n"])
    w.parser("money", "float", sep=",", ignore=" ")
    pad = lambda: rng.choice("pqr") * rng.choice([0, 5, 60])
    rows = [[str(i + 1), rng.choice(L1), rng.choice(["a|b", "", "b", "c|a|b"]), rng.choice(["1", "2-3", "1-1-2"]), rng.choice(["oui", "n"]), rng.choice(["1 000,5", "2", "-3,25"]), pad()] for i in range(n)]
    if broken:
        for i in rng.sample(range(n), 3):
            rows[i][rng.choice([3, 4, 5])] = "bad"
    cols = [("id", "integer"), ("s", "l1"), ("l", "list"), ("r", "relist"), ("b", "yes"), ("f", "money"), ("pad", "l1")]
    w.csv("csv", cols, rows, delim=";")
    json_typed(w, rng, "json", n)
    props = [{"name": "id", "x": X("number", "Id"), "parser": "integer"}, {"name": "s", "x": X("string", "S")}, {"name": "k", "x": X("string", attr="k")}, {"name": "n", "x": X("count", "L"), "parser": "integer"},
             {"name": "ls", "type": "array", "x": X("nodes", "L"), "items": {"x": X("string")}},
             {"name": "o", "type": "object", "x": X("nodes", "O"), "props": [{"name": "p", "x": X("string", "P")}, {"name": "h", "x": X("boolean", "Q"), "parser": "boolean"}]}]
    els, text = [], []
    for i in range(n):
        ch = [elem("Id", t=str(i + 1)), elem("S", t=rng.choice(["a", "b", "é", "<c>"]) + pad())]
        ch += [elem("L", t=rng.choice(["x", "y"])) for _ in range(rng.randint(0, 3))]
        if rng.random() < 0.7:
            ch.append(elem("O", c=[elem("P", t=rng.choice("uv"))] + ([elem("Q")] if rng.random() < 0.5 else [])))
        els.append(elem("item", {"k": rng.choice(["k1", "k2"])}, c=ch))
        text.append(xml_text(els[-1], rng))
    doc = "<root>"
    for i in range(0, n, 5):
        doc += "<g a='%d'>\n" % i + "\n".join(text[i:i + 5]) + "</g>\n"
    w.xml("xml", props, els, doc + "</root>", rng.choice(["/root/g/item", "//g[@a]/item"]))
    w.index("mc", "map", "csv", ["id", "s", "l"] if not broken else ["id", "s"])
    w.index("sc", "sqlite", "csv", ["id", "s"], collate={"s": "nocase"})
    w.index("fc", "fts5", "csv", ["s", "pad"])
    w.index("wc", "wildcard", "csv", ["s", "pad"], icase=True)
    w.index("mj", "map", "json", ["id", "s1", "o.p", "arr"])
    w.index("sj", "sqlite", "json", ["id", "o.q.r"])
    w.index("mx", "map", "xml", ["id", "k", "s"])
    w.index("wx", "wildcard", "xml", ["s", "k"])
    nested = {"js": rel("json", [("id", "id", "default")], rels={"x": rel("xml", [("id", "id", "default")])}),
              "xs": rel("xml", [("id", "id", "mx")], isArray=True), "same": rel("csv", [("s", "s", "mc")], isArray=True, limit=3, sort=[("id", False)])}
    w.output("c", "array", "csv", {"id": ("id", "mc", "integer"), "s": ("s", "sc", "l1" if False else "string"), "w": ("s", "wc", "string"), "b": ("b", "default", "yes"), "f": ("f", "default", "money"),
                                   "m": ("match", "fc", "string"), "l": ("l", "mc", "string") if not broken else ("s", "mc", "string"), "n": ("r.0", "default", "integer")}, ldef=20, lmax=1000)
    w.output("cr", "array", "csv", {"s": ("s", "mc", "string")}, rels=nested)
    w.output("j", "array", "json", {"p": ("o.p", "mj", "string"), "q": ("o.q.r", "sj", "float"), "s1": ("s1", "default", "string"), "arr": ("arr", "mj", "string")}, ldef=20)
    w.output("x", "array", "xml", {"k": ("k", "mx", "string"), "s": ("s", "wx", "string"), "n": ("n", "default", "integer"), "op": ("o.p", "default", "string")}, ldef=20)
    w.output("xo", "object", "xml", {"id": ("id", "mx", "integer")}, rels={"c": rel("csv", [("id", "id", "mc")]), "all": rel("xml", [("k", "k", "mx")], isArray=True, limit=2)})
    w.output("co", "object", "csv", {"id": ("id", "sc", "integer")})
    w.output("jo", "object", "json", {"id": ("id", "sj", "float"), "s1": ("s1", "mj", "string")})
    for o in ("c", "cr", "j", "x"):
        w.route(o)
    w.route("xo", "/xo/", ("id",))
    w.route("co", "/co/", ("id",))
    w.route("jo", "/jo/", ("id",), "/", ("s1",))
    ids = [str(x) for x in range(0, n + 2)]
    T = lambda s: ("t", codes(s))
    reqs = []
    for _ in range(22 if not THOROUGH else 40):
        page = [("limit", str(rng.choice([1, 3, 7, 1000]))), ("offset", str(rng.randint(0, n)))]
        some = lambda: page if rng.random() < 0.4 else []
        reqs += [Req("/c", [("id", rng.choice(ids))] + some()), Req("/c", [("s", rng.choice(L1))] + some()), Req("/c", [("w", rng.choice(["a", "P", "é", "la", "zz", "qq"]))] + some()),
                 Req("/c", [("b", rng.choice(["oui", "n", "maybe"]))] + some()), Req("/c", [("f", rng.choice(["1000,5", "2", "-3,25", "2,5,5"]))] + some()),
                 Req("/c", [("n", rng.choice(["1", "2", "x"]))] + some()), Req("/c", [("l", rng.choice(["a", "b", "", "é"])), ("s", rng.choice(L1))]),
                 Req("/c", some(), fts={"m": rng.choice([T("x"), T("ab"), ("p", codes("pp")), ("or", T("x"), T("la")), ("not", T("carte"), T("x")), ("bad", '"x'), ("bad", "AND")])}),
                 Req("/cr", [("s", rng.choice(L1))] + page), Req("/j", [("p", rng.choice("uvw"))] + some()), Req("/j", [("q", rng.choice(["1", "2", "x"])), ("p", "u")]),
                 Req("/j", [("arr", rng.choice("abc")), ("s1", rng.choice(STRS))]), Req("/x", [("k", rng.choice(["k1", "k3"]))] + some()), Req("/x", [("s", rng.choice(["a", "<", "rr", "é"]))] + some()),
                 Req("/x", [("n", rng.choice("0123x")), ("op", rng.choice("uv"))] + some()), Req("/xo/" + rng.choice(ids)), Req("/co/" + rng.choice(ids)), Req("/co/x"), Req("/nothing"),
                 Req("/jo/" + rng.choice(ids) + "/" + rng.choice(["a", "b", "zz"])), Req("/c", [("limit", "0")]), Req("/x", page), Req("/j", page), Req("/c", page)]
    return w, reqs


def once(reqs):
    seen, out = set(), []
    for r in reqs:
        k = (r.method, r.target())
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def abandon(server, targets, stop):
    """Clients which go away in the middle of their answer."""
    i = 0
    while not stop.is_set():
        try:
            s = socket.create_connection(("127.0.0.1", server.port), timeout=5)
            s.sendall(("GET %s HTTP/1.1\r\nHost: x\r\n\r\n" % targets[i % len(targets)]).encode())
            if i % 3:
                s.recv(10)
            s.close()
        except OSError:
            pass
        i += 1
        time.sleep(0.002)


def hammer(c, w, reqs, history, threads, rounds, race):
    """Asks everything several times from several clients; history collects the answers of each request."""
    s = w.start(race=race)
    if not s.up:
        c.violation("startup", "rodb refuses to start on a valid configuration: " + s.logtext()[-600:], {"config": w.cfg})
        return 0
    n = 0
    with s:
        stop = threading.Event()
        ab = threading.Thread(target=abandon, args=(s, [r.target() for r in reqs[::7]], stop)) if threads > 1 else None
        if ab:
            ab.start()
        for _ in range(rounds):
            order = list(range(len(reqs))) + [c.rng.randrange(len(reqs)) for _ in range(len(reqs) // 2)]
            c.rng.shuffle(order)
            with cf.ThreadPoolExecutor(threads) as ex:
                for i, r in zip(order, ex.map(lambda i: s.get(reqs[i].target(), method=reqs[i].method), order)):
                    history[i].append(r)
                    n += 1
        if ab:
            stop.set()
            ab.join()
        rc = s.stop()
        log = s.logtext()
        for word, what in (("WARNING: DATA RACE", "data race"), ("panic", "panic"), ("fatal error", "crash")):
            if word in log:
                i = log.index(word)
                c.violation("race" if "RACE" in word else "panic", "%s while serving concurrent requests:\n%s" % (what, log[i:i + 1500]), {"config": w.cfg, "log": log[i:i + 8000], "files": read_files(w)})
        if rc not in (0, 66):
            c.violation("exit", "the process ends with %s after serving" % rc, {"log": log[-3000:]})
    return n


def run(c):
    good = {"Clients": "{1,2,3}", "Records": "3", "Broken": "{2}", "MaxReads": "3" if THOROUGH else "2", "BufferBlocks": "3", "Locked": "TRUE", "Reset": "TRUE", "OwnDecoder": "TRUE"}
    c.design("SharedReader", good, [{"Locked": "FALSE"}, {"Reset": "FALSE"}, {"OwnDecoder": "FALSE"}], {"MaxReads": "2"})
    plan = [(24, False), (40, True)] if not THOROUGH else [(10, False), (24, False), (24, True), (60, False), (40, True), (40, False)]
    for n, broken in plan:
        w, reqs = world(c, n, broken)
        reqs = once(reqs)
        history = [[] for _ in reqs]
        k = hammer(c, w, reqs, history, 1, 2, False)
        k += hammer(c, w, reqs, history, 8, 3 if not THOROUGH else 12, False)
        if c.violations:
            break
        k += hammer(c, w, reqs, history, 8, 2 if not THOROUGH else 8, True)
        c.cov["concurrent_and_repeated_requests"] = c.cov.get("concurrent_and_repeated_requests", 0) + k
        wl = c.use_world(w)
        for q, rs in zip(reqs, history):
            if rs:
                c.answers(wl, q, rs, w)
        c.validate()


from check import *
