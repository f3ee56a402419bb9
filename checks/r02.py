"""R02: every request gets one complete well-formed JSON answer."""
TECHNIQUE = 'TLA+ model of the handling of requests with a fault at any point, exhausted by TLC; histories of failing and good requests over bare sockets on the real server, every byte received validated by TLC'
NOTE = 'ResponseProtocol: requests on several connections, each failing at any of its points or not, clients leaving at any time: what is written for each request is exactly its answer and every client which stays gets all of them; the variants which write the status first, encode late, leave records out, close the connection or end the process are refuted. On rodb: worlds where one record of one input fails in one way (cell which cannot be parsed, value which cannot be encoded, malformed nested JSON, missing data after a truncation or an overwriting of the file, relationship to such a record at any depth), every window of limit and offset around it, bad parameters and paths, all methods, over kept, pipelined, fragmented, slow, HTTP/1.0 and abandoned connections, alone and concurrently; the answers are parsed strictly from the bytes and validated by RodbTrace (RodbQuery), as are the requests which follow.'
import wire as wr
from gen import *

BADS = {"n": ["x", "1.5", "", "99999999999999999999", "0x1"], "f": ["NaN", "Inf", "-inf", "+Infinity", "1e400", "x"], "j": ['{"a":', "nul", "[1,]", '"\x01"', "1 2"], "s": ["1|x", "|", "2|3|"]}
GOOD = {"n": ["1", "-7", "300"], "f": ["0.5", "2"], "s": ["1|2", "3"]}


def world(rng, n=None, fail=None, wide=False):
    """One record of one input (parent `i`, child `ch` or grandchild `gc`) fails in one way, or none does."""
    w = World()
    w.parser("ints", "split", delim="|", parser="integer")
    w.parser("js", "jsontext")
    n = n or rng.randint(3, 7)
    fail = fail or rng.choice(["i", "i", "i", "ch", "ch", "gc", "none"])
    pad = ["p" * 600, "é\n" * 300, 'q"' * 300] if wide else ["", "p", "é"]

    def rows(k, keys):
        rs = []
        for i in range(k):
            rs.append([str(i + 1), keys[i % len(keys)], rng.choice(GOOD["n"]), rng.choice(GOOD["f"]), ("json", rng.choice([1, "a", [True, None], {"é": 2}])), rng.choice(GOOD["s"]), rng.choice(pad)])
        return rs

    cols = [("id", "integer"), ("k", "string"), ("n", "integer"), ("f", "float"), ("j", "js"), ("s", "ints"), ("pad", "string")]
    info = {"n": n, "fail": fail, "at": None}
    sizes = {"i": n, "ch": rng.randint(2, 6), "gc": rng.randint(1, 4)}
    for name, k in sizes.items():
        rs = rows(k, ["a", "b", "a", "c"] if name != "gc" else ["1", "2", "3"])
        if fail == name:
            at = rng.randrange(k)
            col = rng.choice(list(BADS))
            rs[at]["id k n f j s".split().index(col)] = rng.choice(BADS[col])
            info["at"] = at
            if rng.random() < 0.3:   # a second one
                rs[rng.randrange(k)][2] = "bad"
        w.csv(name, cols, rs, rng=rng)
    recs = [{"id": i + 1, "k": rng.choice("abc"), "d": {"x": [i]}, "pad": rng.choice(pad)} for i in range(n)]
    w.json("doc", recs)
    w.index("m", "map", "i", ["k", "id"])
    w.index("q", "sqlite", "i", ["k", "id"])
    w.index("w", "wildcard", "i", ["k"])
    w.index("mc", "map", "ch", ["k"])
    ps = {"k": ("k", "default", "string"), "mk": ("k", "m", "string"), "qk": ("k", "q", "string"), "wk": ("k", "w", "string"), "qid": ("id", "q", "integer"), "nn": ("n", "default", "integer")}
    gc = {"g": rel("gc", [("id", "id", "default")])}
    rels = {"c": rel("ch", [("k", "k", rng.choice(["mc", "default"]))], isArray=True, limit=rng.choice([0, 0, 1, 2]), rels=gc if rng.random() < 0.6 else None)}
    w.output("plain", "array", "i", ps)
    w.output("deep", "array", "i", ps, rels=rels)
    w.output("one", "object", "i", {"id": ("id", "m", "integer")})
    w.output("onedeep", "object", "i", {"id": ("id", "q", "integer")}, rels={"c": rel("ch", [("k", "k", "mc")], rels=gc)})
    w.output("doc", "array", "doc", {"k": ("k", "default", "string")}, rels={"p": rel("i", [("k", "k", "m")], isArray=True)})
    for o in ("plain", "deep", "doc"):
        w.route(o)
    w.route("one", "/one/", ("id",))
    w.route("onedeep", "/onedeep/", ("id",))
    w.info = info
    return w


def requests(rng, w, many):
    n, rs = w.info["n"], []
    for o in ("plain", "deep", "doc"):   # every window
        for off in range(n + 1):
            for lim in range(1, n + 2 - off):
                rs.append(Req("/" + o, [("limit", str(lim)), ("offset", str(off))]))
    keep = rng.sample(rs, min(len(rs), many))
    for _ in range(many):
        x = rng.random()
        if x < 0.3:
            keep.append(Req(rng.choice(["/one/", "/onedeep/"]) + str(rng.randint(0, n + 1))))
        elif x < 0.6:
            o = rng.choice(["plain", "deep"])
            ps = [rng.choice([("k", rng.choice("abcz")), ("mk", rng.choice("abz")), ("qk", rng.choice("abz")), ("wk", rng.choice(["a", "", "z"])), ("qid", str(rng.randint(0, n + 1))), ("nn", "1")])]
            if rng.random() < 0.3:
                ps.append(("offset", str(rng.randint(0, n))))
            keep.append(Req("/" + o, ps))
        elif x < 0.75:
            keep.append(Req("/" + rng.choice(["plain", "deep"]), [rng.choice([("limit", "0"), ("limit", "x"), ("offset", "-1"), ("offset", ""), ("qid", "x"), ("nn", "1.5"), ("limit", "-3")])]))
        elif x < 0.9:
            keep.append(Req(rng.choice(["/nothing", "/", "/one/x", "/one/", "/one/1/2", "/plain/", "/%00", "/é", "//plain"])))
        else:
            keep.append(Req(rng.choice(["/plain", "/one/1", "/nothing"]), method=rng.choice(["HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "FOO"])))
    rng.shuffle(keep)
    return keep


def text(rng, q, version="1.1", close=False):
    hs, body, ch = [], None, False
    # a server which closes after its answer, with a body still to be read, resets the connection: the answer may then be lost on its way
    if version == "1.1" and not close and rng.random() < 0.15:
        body = bytes(rng.choice([b"", b"{}", b"x" * 5000]))
        ch = rng.random() < 0.4
        hs.append(("Content-Type", "application/json"))
    if close:
        hs.append(("Connection", "close"))
    elif version == "1.0" and rng.random() < 0.5:
        hs.append(("Connection", "keep-alive"))
    if rng.random() < 0.2:
        hs.append(rng.choice([("Accept", "text/html"), ("Range", "bytes=0-3"), ("If-None-Match", "*"), ("Accept-Encoding", "gzip, br"), ("X-HTTP-Method-Override", "POST"), ("Origin", "http://a")]))
    return wr.message(q.method, q.target(), version, hs, body, ch)


def talk(w, rng, reqs, log, seen):
    """Sends the requests over connections of all kinds; returns [(request, response)] and notes what was done."""
    port, out, i = w.server.port, [], 0
    while i < len(reqs):
        kind = rng.choice(["one", "pipe", "pipe", "split", "slow", "old", "close", "leave", "half", "junk"])
        seen[kind] = seen.get(kind, 0) + 1
        if kind in ("leave", "half", "junk"):
            q = reqs[rng.randrange(len(reqs))]
            m = text(rng, q)
            if kind == "junk":
                m = rng.choice([b"\x16\x03\x01\x00\xa5\x01", b"GET\r\n\r\n", b"GET / HTTP/9.9\r\n\r\n", b"\r\n\r\n", m.replace(b"HTTP/1.1", b"HTTP/1.1\x00"), m.replace(b"Host: x", b"Host: x\r\nContent-Length: -1")])
            try:
                s = wr.connect(port, rcvbuf=4096)
                s.sendall(m[:rng.randrange(1, len(m))] if kind == "half" else m * rng.choice([1, 1, 5]))
                if kind == "leave" and rng.random() < 0.5:
                    s.recv(rng.choice([1, 9, 100]))
                if rng.random() < 0.5:   # reset rather than closed
                    s.setsockopt(wr.socket.SOL_SOCKET, wr.socket.SO_LINGER, b"\1\0\0\0\0\0\0\0")
                s.close()
            except OSError:
                pass
            continue
        k = 1 if kind in ("one", "close", "old") else rng.randint(2, 6)
        qs = reqs[i:i + k]
        i += k
        ms = [text(rng, q, "1.0" if kind == "old" else "1.1", kind == "close") for q in qs]
        rs = wr.conversation(port, ms, [q.method for q in qs], rng, pieces=rng.choice([2, 5, 20]) if kind == "split" else 1, pause=0.001 if kind == "split" else 0,
                             piece=700 if kind == "slow" else 65536, rpause=0.001 if kind == "slow" else 0)
        out += [(q, r, kind) for q, r in zip(qs, rs)]
        log += [(kind, q.method, q.target(), repr(r)[:200]) for q, r in zip(qs, rs)]
    return out


def alive(c, w, log):
    if not w.server.alive():
        c.violation("ended", "the process ended while serving requests", {"config": w.cfg, "routes": w.routes, "history": log[-60:], "files": read_files(w), "log": w.server.logtext()[-3000:]})
        return False
    return True


def history(c, rng, w, many, seen):
    log = []
    wl = c.use_world(w)
    with w.server:
        reqs = requests(rng, w, many)
        got = talk(w, rng, reqs, log, seen)
        with cf.ThreadPoolExecutor(8) as ex:   # and concurrently
            parts = [(random.Random(rng.random()), rng.sample(reqs, min(len(reqs), many // 2))) for _ in range(8)]
            for r in ex.map(lambda p: talk(w, p[0], p[1], log, seen), parts):
                got += r
        if not alive(c, w, log):
            return
        for q in requests(rng, w, many // 4):   # afterwards, plainly
            got.append((q, w.server.get(q.target(), method=q.method), "plain"))
        for q, r, kind in got:
            c.record(wl, q, r, w, "answer:" + ("dropped" if r.dropped else kind))


def damage(c, rng, seen):
    """Data which goes away after the load: the records concerned cannot be delivered, the others can."""
    w = World()
    n = rng.randint(4, 9)
    kind = rng.choice(["csv", "json"])
    rows = [[str(i + 1), rng.choice("ab"), rng.choice(["p", "é", "zz" * rng.randint(0, 40)])] for i in range(n)]
    big = rng.random() < 0.3   # further than the buffers reach
    if big:
        for r in rows:
            r[2] = "x" * rng.choice([3000, 4096, 9000])
    if kind == "csv":
        p = w.csv("i", [("id", "integer"), ("k", "string"), ("t", "string")], rows, die=False)
    else:
        p = w.json("i", [{"id": int(r[0]), "k": r[1], "t": r[2]} for r in rows], die=False)
    w.csv("par", [("k", "string"), ("z", "string")], [["a", "1"], ["b", "2"], ["c", "3"]])
    w.index("m", "map", "i", ["k"])
    w.index("q", "sqlite", "i", ["k", "id"])
    w.index("w", "wildcard", "i", ["k"])
    w.output("a", "array", "i", {"mk": ("k", "m", "string"), "qk": ("k", "q", "string"), "wk": ("k", "w", "string"), "qid": ("id", "q", "integer" if kind == "csv" else "float")})
    w.output("o", "object", "i", {"id": ("id", "q", "integer" if kind == "csv" else "float")})
    rels = {"c": rel("i", [("k", "k", rng.choice("mq"))], isArray=True, limit=rng.choice([0, 0, 1, 2])), "d": rel("i", [("k", "k", rng.choice("mq"))])}
    w.output("r", "array", "par", {"k": ("k", "default", "string")}, rels={k: rels[k] for k in rng.choice(["c", "c", "d", "cd"])})
    w.route("a")
    w.route("r")
    w.route("o", "/o/", ("id",))

    def reqs():
        rs = []
        for _ in range(20):
            x = rng.random()
            pg = [("limit", str(rng.randint(1, n))), ("offset", str(rng.randint(0, n)))] if rng.random() < 0.7 else []
            rs.append(Req("/o/%d" % rng.randint(0, n + 1)) if x < 0.3 else Req("/r", pg) if x < 0.5 else
                      Req("/a", [rng.choice([("mk", rng.choice("abz")), ("qk", rng.choice("abz")), ("wk", rng.choice("abz")), ("qid", str(rng.randint(0, n + 1)))])] + pg))
        return rs
    if not c.boot(w):
        return
    log = []
    with w.server:
        wl = c.use_world(w)
        before = talk(w, rng, reqs(), log, seen)
        data = open(p, "rb").read()
        starts, at = [], 0   # the offsets of the records
        lines = data.split(b"\n")
        for ln in lines[:-1]:
            starts.append(at)
            at += len(ln) + 1
        if kind == "csv":
            starts = starts[1:]
        starts = starts[:n]
        how = rng.choice(["cut", "cut", "empty", "overwrite"])
        if how == "cut":
            k = rng.randrange(n)
            os.truncate(p, starts[k])
            lost = list(range(k + 1, n + 1))
        elif how == "empty":
            os.truncate(p, 0)
            lost = list(range(1, n + 1))
        else:
            lost = sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))
            ends = starts[1:] + [len(data)]
            with open(p, "r+b") as f:
                for k in lost:
                    ln = ends[k - 1] - starts[k - 1]
                    f.seek(starts[k - 1])
                    f.write(b'a"' * ((ln - 1) // 2) + b"a" * ((ln - 1) % 2) + b"\n" if kind == "csv" else b"}" * (ln - 1) + b"\n")
        W2 = json.loads(json.dumps(w.W))
        W2["inputs"]["i"]["lost"] = lost
        w2 = copy.copy(w)
        w2.W = W2
        log.append((how, lost))
        seen[how] = seen.get(how, 0) + 1
        after = talk(w, rng, reqs() + reqs(), log, seen)
        if rng.random() < 0.5:   # and back again
            with open(p, "r+b") as f:
                f.write(data)
            back = talk(w, rng, reqs(), log, seen)
        else:
            back = []
        if alive(c, w, log):
            wl2 = c.use_world(w2)
            for l, ctx, rs in ((wl, w, before + back), (wl2, w2, after)):
                for q, r, k in rs:
                    c.record(l, q, r, ctx, "damaged")


def large(c, rng, seen):
    """Answers of more than a mebibyte, from small records, with one failing record at the end."""
    w = World()
    n = 46
    rows = [[str(i + 1), "%d" % i + rng.choice(["\x01", "<", "\x1f&"]) * rng.randint(4200, 4400)] for i in range(n)] + [["x", "end"]]
    w.csv("i", [("id", "integer"), ("t", "string")], rows)
    w.route(w.output("a", "array", "i", ldef=1000))
    if not c.boot(w):
        return
    log = []
    with w.server:
        reqs = [Req("/a", [("limit", str(n))]), Req("/a"), Req("/a", [("limit", str(n - 1)), ("offset", "1")]), Req("/a", [("offset", str(n - 3))]), Req("/a", [("limit", "2"), ("offset", "4")])]
        got = talk(w, rng, reqs, log, seen) + [(q, w.server.get(q.target()), "plain") for q in reqs[:2]]
        if alive(c, w, log):
            wl = c.use_world(w)
            for q, r, kind in got:
                c.record(wl, q, r, w, "large:" + kind)


def run(c):
    rng = c.rng
    good = {"Conns": "{1,2}", "MaxRequests": "1", "MaxRows": "2", "LoadFirst": "TRUE", "EncodeFirst": "TRUE", "ErrorsReported": "TRUE", "DropOnError": "FALSE", "DieOnGone": "FALSE"}
    c.design("ResponseProtocol", good, [{"LoadFirst": "FALSE"}, {"EncodeFirst": "FALSE"}, {"ErrorsReported": "FALSE"}, {"DropOnError": "TRUE"}, {"DieOnGone": "TRUE"}], small={"MaxRows": "1"})
    c.model("ResponseProtocol", constants={**good, "Conns": "{1}", "MaxRequests": "3" if THOROUGH else "2", "MaxRows": "2" if THOROUGH else "3"})
    if THOROUGH:
        c.model("ResponseProtocol", constants={**good, "MaxRows": "3"})
    seen = {}
    k = 8 if THOROUGH else 1
    jobs = [(world(rng, fail=f, wide=rng.random() < 0.25), 44) for f in ["i"] * 8 * k + ["ch"] * 6 * k + ["gc"] * 4 * k + ["none"] * 2 * k]
    for w, many in jobs:
        if c.boot(w):
            history(c, rng, w, many, seen)
    for _ in range(20 * k):
        damage(c, rng, seen)
    for _ in range(1 if not THOROUGH else 4):
        large(c, rng, seen)
    c.cov["connections_of_each_kind"] = seen
    c.validate()


from check import *
