"""M01: serving any number of requests does not exhaust the process."""
TECHNIQUE = 'TLA+ model of the files and connections held by overlapping requests exhausted by TLC (leaks, lost content, waiting for ever); its histories are replayed on the real process, whose descriptors and answers are validated by TLC'
NOTE = 'Resources models every kind of request as the steps which take and release data files and database connections; TLC explores all the overlappings of two or three requests and refutes the variants without one of the releases, with rows kept during nested searches (requests waiting for one another for ever), or with several connections to an in-memory database. Random histories of the model (up to 6 overlapping requests of some 70 kinds: complete, limited, failing at every place, abandoned) are replayed on processes whose garbage collector is disabled: at each moment of idleness the descriptors must be those of the start, and each answer must be the first one for that request. Then thousands of requests are served with the garbage collector, and neither the descriptors nor the memory may grow.'
import concurrent.futures as cf, hashlib, http.client, re
from gen import *

A = "".join("%d,n%d,%s,w%d x%d\n" % (i, i % 7, "gh"[i % 2], i % 5, i) for i in range(1, 31))
FILES = {
    "a.csv": A,
    "b.csv": "".join("%d,%s\n" % (i, "oops" if i == 10 else i * 2) for i in range(1, 21)),
    "c.json": "".join(json.dumps({"id": i, "name": "n%d" % (i % 7), "text": "one two w%d" % i}) + "\n" for i in range(1, 31)),
    "d.xml": "<r>" + "".join("<i k=\"%d\"><name>n%d</name></i>" % (i, i % 7) for i in range(1, 21)) + "</r>",
    "e.csv": "".join("%d,e%d\n" % (i, i) for i in range(1, 11)),
    "f.csv": "i\"d,name\n" + "1,a\n2,b\n",
    "g.json": "".join('{"id": %d}\n' % i for i in range(1, 8)) + "{\"id\": oops}\n",
    "h.xml": "<r>" + "".join("<i><k>%d</k></i>" % i for i in range(1, 8)) + "<i><k",
}


def config(files):
    """files: the databases are files; otherwise they only exist in memory."""
    cols = lambda *names: [{"name": n, "parser": p} for n, p in names]
    dsn = (lambda n: n + ".db") if files else (lambda n: ":memory:")
    par = lambda prop, index, parser="string": {"property": prop, "index": index, "parser": parser}
    match = lambda p, ch, index="default": [{"parentProperty": p, "childProperty": ch, "childIndex": index}]
    rel = lambda inp, m, **k: {"input": inp, "isArray": True, "match": m, **k}
    inputs = [
        {"name": "a", "type": "csv", "path": "a.csv", "columns": cols(("id", "integer"), ("name", "string"), ("grp", "string"), ("text", "string"))},
        {"name": "b", "type": "csv", "path": "b.csv", "columns": cols(("id", "string"), ("n", "integer"))},
        {"name": "c", "type": "json", "path": "c.json"},
        {"name": "d", "type": "xml", "path": "d.xml", "recordXpath": "//i", "properties": [{"name": "k", "type": "primitive", "xpath": "string(@k)", "parser": "integer"}, {"name": "name", "type": "primitive", "xpath": "string(name)"}]},
        {"name": "e", "type": "csv", "path": "e.csv", "dieOnInputChange": False, "columns": cols(("id", "string"), ("name", "string"))},
        {"name": "f", "type": "csv", "path": "f.csv", "ignoreFirstRow": True, "columns": cols(("id", "string"), ("name", "string"))},
        {"name": "g", "type": "json", "path": "g.json"},
        {"name": "h", "type": "xml", "path": "h.xml", "recordXpath": "//i", "properties": [{"name": "k", "type": "primitive", "xpath": "string(k)"}]}]
    indexes = [
        {"name": "m", "type": "map", "input": "a", "properties": ["id", "grp"]},
        {"name": "w", "type": "wildcard", "path": "w.idx", "input": "a", "properties": ["text", "name"]},
        {"name": "sa", "type": "sqlite", "dsn": dsn("sa"), "input": "a", "properties": [{"name": "name"}, {"name": "grp"}, {"name": "text"}]},
        {"name": "sc", "type": "sqlite", "dsn": dsn("sc"), "input": "c", "properties": [{"name": "name"}, {"name": "id"}]},
        {"name": "fc", "type": "fts5", "dsn": dsn("fc"), "input": "c", "properties": ["text"]},
        {"name": "sd", "type": "sqlite", "dsn": dsn("sd"), "input": "d", "properties": [{"name": "name"}]}]
    pa = {"id": par("id", "m", "integer"), "grp": par("grp", "m"), "n": par("name", "default"), "sn": par("name", "sa"), "sg": par("grp", "sa"), "w": par("text", "w")}
    pc = {"sn": par("name", "sc"), "q": par("match", "fc"), "n": par("name", "default")}
    nest = lambda depth: {"r": rel("a", match("name", "name", "sa"), **({"relationships": nest(depth - 1)} if depth > 1 else {}), limit=2)}
    outs = [
        {"name": "la", "type": "jsonArray", "input": "a", "parameters": pa},
        {"name": "lb", "type": "jsonArray", "input": "b", "parameters": {"n": par("n", "default", "integer"), "id": par("id", "default")}},
        {"name": "lc", "type": "jsonArray", "input": "c", "parameters": pc},
        {"name": "ld", "type": "jsonArray", "input": "d", "parameters": {"sn": par("name", "sd"), "n": par("name", "default"), "k": par("k", "default", "integer")}},
        {"name": "le", "type": "jsonArray", "input": "e"}, {"name": "lf", "type": "jsonArray", "input": "f"}, {"name": "lg", "type": "jsonArray", "input": "g"}, {"name": "lh", "type": "jsonArray", "input": "h"},
        {"name": "n1", "type": "jsonArray", "input": "a", "parameters": pa, "relationships": nest(3)},
        {"name": "n2", "type": "jsonArray", "input": "c", "parameters": pc, "relationships": {"r": rel("c", match("name", "name", "sc"), limit=1, relationships={"x": rel("d", match("name", "name", "sd")), "y": rel("a", match("name", "name", "w"))}), "z": rel("a", match("id", "id"), limit=1)}},
        {"name": "n3", "type": "jsonArray", "input": "a", "parameters": pa, "relationships": {"bad": rel("b", match("id", "n"))}},
        {"name": "n4", "type": "jsonArray", "input": "a", "parameters": pa, "relationships": {"gone": rel("e", match("name", "name"))}},
        {"name": "n5", "type": "jsonArray", "input": "a", "parameters": pa, "relationships": {"one": {"input": "d", "match": match("name", "name")}, "none": {"input": "d", "match": match("text", "name")}}},
        {"name": "om", "type": "jsonObject", "input": "a", "parameters": {"id": par("id", "m", "integer")}},
        {"name": "on", "type": "jsonObject", "input": "a", "parameters": {"id": par("id", "default", "integer")}},
        {"name": "os", "type": "jsonObject", "input": "a", "parameters": {"n": par("name", "sa")}, "relationships": nest(2)},
        {"name": "oj", "type": "jsonObject", "input": "a", "parameters": {"id": par("id", "m", "integer"), "n": par("name", "default")}},
        {"name": "od", "type": "jsonObject", "input": "d", "parameters": {"k": par("k", "default", "integer")}},
        {"name": "oc", "type": "jsonObject", "input": "c", "parameters": {"n": par("name", "default")}},
        {"name": "ob", "type": "jsonObject", "input": "b", "parameters": {"id": par("id", "default")}}]
    routes = [{"path": "/" + o["name"] + "".join("/{%s}" % p for p in (o["parameters"] if o["type"] == "jsonObject" else ())), "output": o["name"]} for o in outs]
    return {"inputs": inputs, "indexes": indexes, "outputs": outs}, routes


O, C, G, S, F = ["open", ""], ["close", ""], ["get", ""], ["stop", ""], ["fail", ""]
Q = lambda db: ["query", db]
R = lambda db: ["rows", db]


def nested(n):
    """Searches of the same database inside one another."""
    return [Q("sa"), G] + (nested(n - 1) if n > 1 else []) + [R("sa")]


SCAN, PART = [O, G, C, S], [O, G, S]
KINDS = [   # [target, status, steps]
    ["/la", 200, SCAN], ["/la?limit=5", 200, PART], ["/la?limit=30", 200, PART], ["/la?limit=31", 200, SCAN], ["/la?offset=100", 200, SCAN], ["/la?offset=29&limit=1", 200, PART], ["/la?limit=x", 500, [F]], ["/la?limit=0", 500, [F]], ["/la?offset=-1", 500, [F]],
    ["/la?n=n3", 200, SCAN], ["/la?n=n3&limit=1", 200, PART], ["/la?n=zz", 200, SCAN], ["/la?id=3", 200, [G, S]], ["/la?id=333", 200, [S]], ["/la?id=x", 500, [F]], ["/la?id=3&n=n3", 200, [O, G, S]], ["/la?id=333&n=n3", 200, [O, S]], ["/la?grp=g&n=n3&limit=1", 200, PART],
    ["/la?w=w1*", 200, [G, S]], ["/la?w=nothing", 200, [S]], ["/la?sn=n2", 200, [Q("sa"), R("sa"), G, S]], ["/la?sn=n2&limit=1", 200, [Q("sa"), G, S]], ["/la?sn=zz", 200, [Q("sa"), R("sa"), S]], ["/la?sn=n2&sg=g", 200, [Q("sa"), R("sa"), G, S]], ["/la?sn=n2&n=n2&grp=g&limit=1", 200, [O, Q("sa"), G, S]],
    ["/lb", 500, [O, G, F]], ["/lb?limit=5", 200, PART], ["/lb?limit=9", 200, PART], ["/lb?n=4&limit=1", 200, PART], ["/lb?n=4", 500, [O, G, F]], ["/lb?n=30", 500, [O, G, F]], ["/lb?id=10", 500, [O, G, F]], ["/lb?offset=10", 200, SCAN],
    ["/lc", 200, SCAN], ["/lc?limit=2&offset=3", 200, PART], ["/lc?n=n1", 200, SCAN], ["/lc?q=two", 200, [Q("fc"), R("fc"), G, S]], ["/lc?q=two&limit=1", 200, [Q("fc"), G, S]], ["/lc?q=%22", 500, [F]], ["/lc?q=two%20AND", 500, [F]], ["/lc?q=nothing", 200, [Q("fc"), R("fc"), S]], ["/lc?q=w3&sn=n3", 200, [Q("fc"), Q("sc"), G, S]],
    ["/ld", 200, SCAN], ["/ld?limit=3", 200, PART], ["/ld?n=n2", 200, SCAN], ["/ld?k=4&limit=1", 200, PART], ["/ld?sn=n2", 200, [Q("sd"), R("sd"), G, S]],
    ["/le", 500, [F]], ["/le?limit=1", 500, [F]], ["/lf", 500, [O, F]], ["/lf?limit=1", 500, [O, F]], ["/lg", 500, [O, G, F]], ["/lg?limit=3", 200, PART], ["/lh", 500, [O, G, F]], ["/lh?limit=3", 200, PART],
    ["/n1?limit=2", 200, [O, G] + nested(3) + [S]], ["/n1?sn=n1&limit=3", 200, nested(4) + [S]], ["/n1?id=4", 200, [G] + nested(3) + [S]],
    ["/n2?limit=2", 200, [O, G, Q("sc"), G, Q("sd"), G, R("sd"), R("sc"), O, G, C, S]], ["/n2?sn=n4&limit=1", 200, [Q("sc"), G, Q("sc"), G, Q("sd"), G, R("sd"), R("sc"), O, C, S]],
    ["/n3?limit=1", 500, [O, G, O, G, F]], ["/n3?id=3", 500, [G, O, G, F]], ["/n4?limit=1", 500, [O, G, F]], ["/n5?limit=3", 200, [O, G, O, C, O, C, S]], ["/n5?id=7", 200, [G, O, C, O, C, S]],
    ["/om/3", 200, [G, S]], ["/om/333", 404, [F]], ["/on/3", 200, PART], ["/on/30", 200, PART], ["/on/333", 404, [O, C, F]], ["/on/x", 404, [F]], ["/os/n3", 200, nested(3) + [S]], ["/os/zz", 404, [Q("sa"), R("sa"), F]], ["/oj/3/n3", 200, [O, G, S]], ["/oj/3/n4", 404, [O, F]], ["/oj/333/n4", 404, [O, F]],
    ["/od/4", 200, PART], ["/od/444", 404, [O, C, F]], ["/oc/n1", 200, PART], ["/oc/zz", 404, [O, C, F]], ["/ob/3", 200, PART], ["/ob/10", 500, [O, G, F]], ["/nothing", 404, [F]], ["/", 404, [F]]]


def given(kinds, files):
    dbs = ["sa", "sc", "sd", "fc"]
    return write(os.path.join(subdir("k"), "kinds.json"), json.dumps({"kinds": [{"name": k[0], "steps": [{"op": o, "on": d} for o, d in k[2]]} for k in kinds], "dbs": dbs, "memory": [] if files else dbs}))


PAUSE = 6 if not THOROUGH else 75
GOOD = {"Pool": "1", "Eager": "TRUE", "Early": "TRUE", "OnFailure": "TRUE"}


def designs(c):
    byname = {k[0]: k for k in KINDS}
    few = [byname[n] for n in ("/la", "/la?limit=5", "/lb", "/la?sn=n2", "/n1?sn=n1&limit=3", "/n3?limit=1", "/n2?sn=n4&limit=1", "/lc?q=w3&sn=n3")]
    env = {"KINDS": given(few, False)}
    dims = {"Slots": "3", "Rounds": "1", "PerRound": "3"} if not THOROUGH else {"Slots": "3", "Rounds": "2", "PerRound": "4"}
    c.model("Resources", constants={**GOOD, **dims}, env=env)
    for b in ({"Eager": "FALSE"}, {"Pool": "2"}, {"Early": "FALSE"}, {"OnFailure": "FALSE"}):
        c.model_refutes("Resources", constants={**GOOD, "Slots": "2", "Rounds": "1", "PerRound": "2", **b}, env=env)


def histories(c, n, rounds, per, slots):
    r = c.model("Resources", cfg="ResourcesHistories.cfg", constants={**GOOD, "Slots": str(slots), "Rounds": str(rounds), "PerRound": str(per)}, env={"KINDS": given(KINDS, False)},
                simulate=n, depth=rounds * per * 14, seed=c.rng.randrange(1 << 30), workers=1)
    return [json.loads(json.loads(ln[len('<<"HISTORY", '):-2])) for ln in r.out.splitlines() if ln.startswith('<<"HISTORY"')]


def held(pid, d):
    """The open descriptors of a process, by sort."""
    out = {}
    for n in os.listdir("/proc/%d/fd" % pid):
        try:
            t = os.readlink("/proc/%d/fd/%s" % (pid, n))
        except OSError:
            continue
        t = t.replace(os.path.realpath(d) + "/", "").replace(d + "/", "").replace(" (deleted)", "")
        t = re.sub(r":\[\d+\]", "", t)
        if not t.startswith("rodb-"):
            out[t] = out.get(t, 0) + 1
    return dict(sorted(out.items()))


def within(now, base):
    return all(v <= base.get(x, 0) for x, v in now.items())


class Client:
    """One slot: a connection, kept or not between its requests."""
    def __init__(self, port, rng):
        self.port, self.rng, self.s = port, rng, None

    def send(self, target):
        if self.s is None:
            self.s = socket.create_connection(("127.0.0.1", self.port), timeout=30)
        keep = self.rng.random() < 0.5
        msg = "GET %s HTTP/1.1\r\nHost: x\r\n%s\r\n" % (target, "" if keep else "Connection: close\r\n")
        self.way = self.rng.choices(["read", "close", "half", "byte"], [76, 10, 6, 8])[0]
        if self.way == "half":
            msg = msg[:self.rng.randint(1, len(msg) - 1)]
        self.s.sendall(msg.encode())
        self.keep = keep
        if self.way in ("close", "half"):
            self.close()

    def receive(self):
        """(status, body); status 0 when the client gave up or the server did not answer"""
        if self.s is None:
            return 0, b"", True
        if self.way == "byte":
            try:
                self.s.recv(1)
            except OSError:
                pass
            self.close()
            return 0, b"", True
        try:
            data = b""
            while b"\r\n\r\n" not in data:
                x = self.s.recv(65536)
                if not x:
                    break
                data += x
            head, _, body = data.partition(b"\r\n\r\n")
            m = re.search(rb"(?i)content-length: (\d+)", head)
            if m:
                while len(body) < int(m.group(1)):
                    x = self.s.recv(65536)
                    if not x:
                        raise OSError("truncated")
                    body += x
            else:
                while not body.endswith(b"0\r\n\r\n"):
                    x = self.s.recv(65536)
                    if not x:
                        raise OSError("truncated")
                    body += x
                out, rest = b"", body
                while True:
                    n, _, rest = rest.partition(b"\r\n")
                    if int(n, 16) == 0:
                        break
                    out, rest = out + rest[:int(n, 16)], rest[int(n, 16) + 2:]
                body = out
            status = int(head.split()[1])
        except (OSError, ValueError, IndexError):
            self.close()
            return 0, b"", False
        if not self.keep:
            self.close()
        return status, body, False

    def close(self):
        if self.s is not None:
            self.s.close()
            self.s = None


def settle(s, base):
    """The descriptors once the process is idle (requests which were given up are still served to their end)."""
    t0 = time.time()
    pause = 0.001
    while True:
        h = held(s.p.pid, s.cwd)
        if within(h, base) or time.time() - t0 > 5:
            return h
        time.sleep(pause)
        pause = min(0.05, pause * 2)


def start(c, files, env):
    d = subdir("m01")
    for n, t in FILES.items():
        write(os.path.join(d, n), t)
    cfg, routes = config(files)
    s = Server(cfg, d, routes, env=env)
    if not s.up:
        c.violation("startup", "rodb refuses to start on a valid configuration: " + s.logtext()[-600:], {"config": s.cfg, "log": s.logtext()[-3000:]})
        s.__exit__()
        return None
    os.unlink(os.path.join(d, "e.csv"))
    return s


def along(c, files, hs, rng):
    """Replays histories on one process; returns the events."""
    s = start(c, files, {"GOGC": "off"})
    if s is None:
        return None
    try:
        s.get("/nothing")
        [x.close() for x in s._conns]
        time.sleep(0.1)
        base = held(s.p.pid, s.cwd)
        sorts = sorted(base)
        now = base
        events, names = [], []
        for i, h in enumerate(hs):
            slots = {}
            if i == len(hs) // 2:
                time.sleep(PAUSE)   # whatever was opened must survive being idle
            for what, n, k in h:
                if what == "start":
                    slots.setdefault(n, Client(s.port, rng))
                    try:
                        slots[n].send(KINDS[k - 1][0])
                    except OSError:
                        slots[n].close()
                        slots[n].way = "refused"
                elif what == "end":
                    lost = slots[n].way == "refused"
                    st, body, gave = slots[n].receive()
                    events.append({"ev": "answer", "kind": k, "status": st, "gaveup": gave and not lost, "digest": hashlib.md5(body).hexdigest() if st == 200 else str(st)})
                    names.append("%s -> %s %r" % (KINDS[k - 1][0], st, body[:200]))
                    if st == 0 and (lost or not gave):
                        break
                else:
                    for x in slots.values():
                        x.close()
                    now = settle(s, base)
                    events.append({"ev": "idle", "held": [now.get(x, 0) for x in sorts] + [sum(v for x, v in now.items() if x not in base)]})
                    names.append("held %s, at the start %s" % (now, base))
                    if not within(now, base):
                        break
            if events and (events[-1]["ev"] != "idle" or not within(now, base)):
                break
        return {"events": events, "names": names, "base": [base[x] for x in sorts] + [0], "log": s.logtext()[-3000:], "alive": s.alive(), "cfg": s.cfg}
    finally:
        s.__exit__()


def validate(c, r, what):
    p = write(os.path.join(subdir("tr"), "t.json"), json.dumps({"kinds": [{"status": k[1]} for k in KINDS], "base": r["base"], "events": r["events"]}))
    t = c.model("ResourcesTrace", env={"TRACE": p}, workers=1)
    c.traces += len(r["events"])
    for ln in t.out.splitlines():
        m = re.match(r'<<"BAD", (\d+), "(\w+)">>', ln)
        if m:
            i, why = int(m.group(1)) - 1, m.group(2)
            c.violation(why, "%s: after %d observations, not allowed by the specification (%s): %s" % (what, i, why, r["names"][i]),
                        {"config": r["cfg"], "observations": r["names"][max(0, i - 60):i + 1], "log": r["log"]})
            return
    if not r["alive"]:
        c.violation("died", "%s: the process has ended: %s" % (what, r["log"][-600:]), {"config": r["cfg"], "log": r["log"]})


def rss(pid):
    t = open("/proc/%d/smaps_rollup" % pid).read()
    return int(re.search(r"Anonymous:\s+(\d+)", t).group(1))


def volume(c, files):
    """Thousands of requests, with the garbage collector: neither the descriptors nor the memory may grow."""
    s = start(c, files, {"GOGC": "50"})
    if s is None:
        return
    try:
        s.get("/nothing")
        [x.close() for x in s._conns]
        time.sleep(0.1)
        base = held(s.p.pid, s.cwd)
        n = 2500 if not THOROUGH else 12000
        dropped = []

        def some(seed):
            rng = random.Random(seed)
            cl = Client(s.port, rng)
            for _ in range(n // 8):
                if dropped:
                    break
                k = rng.choice(KINDS)
                try:
                    cl.send(k[0])
                    st, body, gave = cl.receive()
                except OSError:
                    st, gave = 0, False
                if not gave and st != k[1]:
                    dropped.append("%s is answered %s instead of %s" % (k[0], st, k[1]))
            cl.close()
        marks, counts = [], []
        for part in range(5):
            with cf.ThreadPoolExecutor(8) as ex:
                list(ex.map(some, [c.rng.random() for _ in range(8)]))
            c.traces += n
            now = settle(s, base)
            if dropped:
                c.violation("answers", "after %d requests, %s" % (n * (part + 1), dropped[0]), {"config": s.cfg, "log": s.logtext()[-3000:]})
                return
            if not within(now, base):
                c.violation("held", "after %d requests, the process holds %s instead of %s" % (n * (part + 1), now, base), {"config": s.cfg, "log": s.logtext()[-3000:]})
                return
            marks.append(rss(s.p.pid))
            counts.append(len(os.listdir("/proc/%d/task" % s.p.pid)))
        c.cov.setdefault("memory_kb", []).append(marks)
        c.cov.setdefault("threads", []).append(counts)
        flood(c, s)
        # 600 bytes kept for each request would be some kind of a leak (the first fifth is not counted)
        if (marks[-1] - marks[0]) * 1024 > 600 * 4 * n and marks[4] > marks[3] > marks[2] > marks[1] > marks[0]:
            c.violation("memory", "the memory of the process grows with the number of requests: %s kB after each %d" % (marks, n), {"config": s.cfg})
        if counts[-1] > 120:
            c.violation("threads", "the process has %s threads" % counts, {"config": s.cfg})
    finally:
        s.__exit__()


CHEAP = ["/om/3", "/nothing", "/la?limit=x", "/om/333", "/la?id=3", "/lc?q=%22"]


def flood(c, s):
    """Cheap requests in numbers: whatever is kept for each of them ends up being seen."""
    n = 1500 if not THOROUGH else 20000

    def some(k):
        conn = http.client.HTTPConnection("127.0.0.1", s.port, timeout=30)
        for i in range(n):
            conn.request("GET", CHEAP[(i + k) % len(CHEAP)])
            conn.getresponse().read()
        conn.close()
    marks = []
    for part in range(4):
        try:
            with cf.ThreadPoolExecutor(8) as ex:
                list(ex.map(some, range(8)))
        except OSError as e:
            c.violation("flood", "after thousands of requests, %s" % e, {"config": s.cfg, "log": s.logtext()[-3000:]})
            return
        time.sleep(0.2)
        marks.append(rss(s.p.pid))
    c.traces += 4 * 8 * n
    c.cov.setdefault("flood_memory_kb", []).append(marks)
    if (marks[3] - marks[0]) * 1024 > 150 * 3 * 8 * n and marks[3] > marks[2] > marks[1] > marks[0]:
        c.violation("memory", "the memory of the process grows with the number of requests: %s kB after each %d" % (marks, 8 * n), {"config": s.cfg})


def run(c):
    designs(c)
    c.cov["kinds"] = len(KINDS)
    jobs = []
    for files in (False, True):
        for slots, per in ((6, 9), (3, 6)) if not THOROUGH else ((6, 9), (3, 6), (8, 14), (2, 4)):
            jobs.append((files, histories(c, 12 if not THOROUGH else 40, 12, per, slots), random.Random(c.rng.random())))
    c.cov["histories"] = sum(len(hs) for _, hs, _ in jobs)
    c.samples = [" ".join("%s%d:%s" % (w, n, KINDS[k - 1][0]) if k else w for w, n, k in h)[:700] for _, hs, _ in jobs for h in hs[:1]]
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: along(c, *j), jobs))
    for (files, hs, _), r in zip(jobs, res):
        if r is not None:
            c.requests += len([e for e in r["events"] if e["ev"] == "answer"])
            validate(c, r, "databases in files" if files else "databases in memory")
    if not c.violations:
        with cf.ThreadPoolExecutor(2) as ex:
            list(ex.map(lambda files: volume(c, files), (False, True)))
